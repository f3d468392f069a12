package drv

// Scenario: a behaviour of the environment, generated from the specification (spec/Gen*.tla).
type Scn struct {
	ID    int      `json:"id"`
	Fam   string   `json:"fam"`
	Seed  int      `json:"seed"`
	Cfg   Cfg      `json:"cfg"`
	Conns []Conn   `json:"conns"`
	Steps []Step   `json:"steps"`
	Names []string `json:"names"` // usernames to look up in the pool at every quiescent point (filled in by the driver)
}

type Lis struct {
	N    string `json:"n"` // network
	A    string `json:"a"` // address
	Mode string `json:"mode"`
	Buf  int    `json:"buf"` // udp buffer size, 0 = default
}

type Prog struct {
	Op string   `json:"op"`
	ID int      `json:"id"`
	U  string   `json:"u"`
	Ks []string `json:"ks"`
	N  int      `json:"n"` // number of own middlewares
}

type HB struct {
	On   bool `json:"on"`
	Iv   int  `json:"iv"`
	ID   int  `json:"id"`
	Thru bool `json:"thru"`
	Loss bool `json:"loss"`
}

type Auth struct {
	On   bool `json:"on"`
	Dl   int  `json:"dl"`
	ID   int  `json:"id"`
	Thru bool `json:"thru"`
}

type Cfg struct {
	Lis   []Lis  `json:"lis"`
	TLS   bool   `json:"tls"`
	Mar   string `json:"mar"`
	Max   int    `json:"max"`
	Pool  bool   `json:"pool"`
	Sig   bool   `json:"sig"`
	HB    HB     `json:"hb"`
	Auth  Auth   `json:"auth"`
	OnMsg bool   `json:"onmsg"`
	OcC   bool   `json:"occ"`
	OcL   bool   `json:"ocl"`
	Dl    int    `json:"dl"`
	Rdl   int    `json:"rdl"`
	Wdl   int    `json:"wdl"`
	Y     int    `json:"y"`
	Prog  []Prog `json:"prog"`
}

type Conn struct {
	L     int    `json:"l"` // listener, 1-based
	Units []Unit `json:"units"`
	Eof   bool   `json:"eof"` // last data arrives together with EOF
	Win   int    `json:"win"`
	Rs    []int  `json:"rs"` // sizes of successive server reads
	Oc    []Act  `json:"oc"` // what OnConnect does
	Cl    []Act  `json:"cl"` // what OnClose does
	Ls    []Act  `json:"ls"` // what the heartbeat loss callback does
	Raw   []Act  `json:"raw"`
	Rem   string `json:"rem"`
}

type Unit struct {
	ID   int    `json:"id"`
	RT   string `json:"rt"`
	U    string `json:"u"`
	BL   int    `json:"bl"`
	Mal  string `json:"mal"`
	Pipe int    `json:"pipe"`
	Do   []Act  `json:"do"`
	// filled in by the driver
	Size int    `json:"size"`
	Decl int    `json:"decl"`
	HK   string `json:"hk"`
	dup  int
}

type Act struct {
	K string `json:"k"` // link address: h, g1, ka, s1
	A string `json:"a"`
	N int    `json:"n"`
	S string `json:"s"`
	X int    `json:"x"`
}

type Step struct {
	Op  string `json:"op"`
	C   int    `json:"c"`
	N   int    `json:"n"`
	S   string `json:"s"`
	U   int    `json:"u"`
	F   int    `json:"f"`
	Fin bool   `json:"fin"`
	G   bool   `json:"g"` // run concurrently with the following steps
	Act Act    `json:"act"`
}

type Ev map[string]interface{}

type Trace struct {
	Scn *Scn `json:"scn"`
	Ev  []Ev `json:"ev"`
}

// normalise replaces absent lists by empty ones (TLC reads null as a string).
func (s *Scn) normalise() {
	if s.Cfg.Lis == nil {
		s.Cfg.Lis = []Lis{}
	}
	if s.Cfg.Prog == nil {
		s.Cfg.Prog = []Prog{}
	}
	for i := range s.Cfg.Prog {
		if s.Cfg.Prog[i].Ks == nil {
			s.Cfg.Prog[i].Ks = []string{}
		}
	}
	if s.Conns == nil {
		s.Conns = []Conn{}
	}
	if s.Steps == nil {
		s.Steps = []Step{}
	}
	act := func(l *[]Act) {
		if *l == nil {
			*l = []Act{}
		}
	}
	for i := range s.Conns {
		c := &s.Conns[i]
		if c.Units == nil {
			c.Units = []Unit{}
		}
		if c.Rs == nil {
			c.Rs = []int{}
		}
		act(&c.Oc)
		act(&c.Cl)
		act(&c.Ls)
		act(&c.Raw)
		for j := range c.Units {
			act(&c.Units[j].Do)
		}
	}
}
