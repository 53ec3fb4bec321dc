package main

// component is a harness for a part of the system other than the server.
type component interface {
	do(o op)
	finish()
}

var compNew = map[string]func(s *sim) component{}

func (s *sim) component() component {
	if s.comp == nil {
		if f := compNew[s.p.Kind]; f != nil {
			s.comp = f(s)
		}
	}
	return s.comp
}

func (s *sim) doComp(o op) {
	if c := s.component(); c != nil {
		c.do(o)
	}
}

func (s *sim) finishComp() {
	if c := s.component(); c != nil {
		c.finish()
	}
}
