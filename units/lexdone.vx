requires self.wf(),
ensures r == (self.rest().len() == 0),
