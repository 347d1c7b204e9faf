package main

func init() {
	register(&checkDef{id: "C29", spec: true, rule: "contract drivers over TraceInfo with arbitrary ids, flags and header parts: what SetHeader writes TraceInfoFromHeader reads back (formatting, splitting and parsing of composed strings analysed symbolically), and a header with a wrong number of parts or a part that does not parse yields nothing", run: runC29})
}

func runC29(c *Ctx) {
	c.SpecAll("header", c.specOpts())
	c.Floor("header", 30)
}

func init() {
	register(&checkDef{id: "C30", spec: true, rule: "contract drivers with arbitrary handlers, clients, writers and requests: the wrapped party is called once with the request's data, everything it writes or returns arrives unchanged, and the trace is continued", run: runC30})
}

func runC30(c *Ctx) {
	c.SpecAll("wrapper", c.specOpts())
	c.Floor("wrapper", 40)
}
