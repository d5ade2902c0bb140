package main

import (
	"go/types"
	"strings"
)

const modpath = "github.com/nathanaelle/syslog5424/v2"

var frames = []string{"None", "Zero", "LF", "5425"}

// runtime errors and explicit panics
func isPanicKind(k string) bool {
	switch k {
	case "check", "frozen", "vacuous", "undecided":
		return false
	}
	return !strings.Contains(k, ":")
}

func checkOf(id string) func(it *Item) bool {
	return func(it *Item) bool {
		return isPanicKind(it.Kind) || it.Kind == "check" && strings.HasPrefix(it.What, id+":") || strings.HasPrefix(it.Kind, id+":")
	}
}

func init() {
	var d01 []string
	for _, t := range frames {
		for _, w := range []string{"Scalars", "Names", "SD", "Text", "Writable"} {
			n := "D01_" + t + "_" + w
			addPass(n, driverPass(n, decodeMon))
			d01 = append(d01, n)
		}
	}
	for _, n := range []string{"SDParse", "D01_Tokens", "D01_Tokens2", "D01_Priority"} {
		addPass(n, driverPass(n, func() *Mon { return &Mon{freeze: true} }))
		d01 = append(d01, n)
	}
	addProp(&Prop{
		id:     "D01",
		rule:   "abstract interpretation (relational numeric domain, byte contents, heap shapes) of Parse with every transport, of every accessor of the decoded message and of its re-encoding, from unknown bytes: each index, slice, nil, conversion and explicit panic site is an obligation",
		passes: d01,
		want: func(it *Item) bool {
			return isPanicKind(it.Kind) || it.Kind == "check" && strings.HasPrefix(it.What, "D01:")
		},
		floor: 150,
	})
	addProp(&Prop{
		id:     "D04",
		rule:   "in the same interpretation, no write reaches a storage that exists when Parse returns: accessors and conversions never change the received message",
		passes: append(append([]string(nil), d01...), "D06_Receiver"),
		want:   func(it *Item) bool { return it.Kind == "frozen" || it.Kind == "D04:given" },
		floor:  1,
	})
}

// decodeMon: the storage that exists at driver.freeze is not written any more; sdata.Parse is cut,
// it is analysed by SDParse
func decodeMon() *Mon {
	m := &Mon{model: map[string]modelFn{}, freeze: true}
	cutSD(m)
	cutAccessors(m)
	return m
}

// cutSD replaces the calls of sdata.Parse by its contract
func cutSD(m *Mon) {
	m.model[modpath+"/sdata.Parse"] = func(x *X, st *State, c *callCtx) []Outcome {
		if st.ghost["nocut"] != nil {
			return nil
		}
		t := st.clone()
		return []Outcome{
			{st: st, ret: TupleV{[]Val{newUnk(c.sig.Results().At(0).Type(), true), boolC(true)}}},
			{st: t, ret: TupleV{[]Val{NilV{}, boolC(false)}}},
		}
	}
}

// cutAccessors: in the re-encoding of a decoded message, the accessors are those that the other
// passes analyse on the same message, which is not written in between
func cutAccessors(m *Mon) {
	for _, n := range []string{"Priority", "TimeStamp", "Hostname", "AppName", "ProcID", "MsgID", "StructuredData", "Text"} {
		n := n
		m.model["("+modpath+".MessageImmutable)."+n] = func(x *X, st *State, c *callCtx) []Outcome {
			want, ok := st.ghost["cut"].(StructV)
			got, ok2 := c.args[0].(StructV)
			if !ok || !ok2 || !sameShape(st, want, got) {
				return nil
			}
			r := st.freshResults(c.sig)
			if n == "StructuredData" {
				r = anyList(st, c.sig.Results().At(0).Type())
			}
			return ret1(st, r)
		}
	}
}

func sameShape(st *State, a, b Val) bool {
	switch x := st.resolve(a).(type) {
	case StructV:
		y, ok := st.resolve(b).(StructV)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !sameShape(st, x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case SliceV:
		y, ok := st.resolve(b).(SliceV)
		return ok && x.obj == y.obj && st.eqL(x.off, y.off) && st.eqL(x.len, y.len)
	case IntV:
		y, ok := st.resolve(b).(IntV)
		return ok && st.eqL(x.e, y.e)
	}
	return false
}

// anyList is a slice of non nil interfaces
func anyList(st *State, t types.Type) Val {
	el := t.Underlying().(*types.Slice).Elem()
	n := st.freshLen("list")
	s := st.newSliceOf(el, n, n, "list")
	a := st.arr(s.obj).clone()
	a.hasTmpl, a.tmpl, a.zero = true, []Val{newUnk(el, true)}, false
	st.setArr(s.obj, a)
	return s
}

// cutList replaces the encoding of a list of structured data by its contract: bytes that depend on the list, or an error
var listMarshal = "(" + modpath + "/sdata.List).Marshal5424"

func cutList(m *Mon) {
	m.model[listMarshal] = describedBytes("sdlist", true)
}

func sendMon(then string) func() *Mon {
	return func() *Mon {
		m := &Mon{model: map[string]modelFn{}, merge: 24}
		cutList(m)
		if then == "" {
			return m
		}
		m.model["(*"+modpath+".Sender).Send"] = func(x *X, st *State, c *callCtx) []Outcome {
			var out []Outcome
			for _, o := range x.driverCall(st, then, c.site, c.args[1]) {
				if t, ok := o.ret.(TupleV); o.panicked || !ok || len(t.f) > 0 {
					out = append(out, o)
					continue
				}
				bad := o.st.clone()
				out = append(out, Outcome{st: o.st, ret: NilV{}}, Outcome{st: bad, ret: unkErr(x)})
			}
			return out
		}
		return m
	}
}

func init() {
	var m01 []string
	for _, n := range []string{"Create", "Whole", "Empty", "Setters", "LocalHost", "Channel", "Sub", "SubSub", "App", "Msgid", "MsgidApp", "MsgidMsgid"} {
		n = "M01_" + n
		addPass(n, driverPass(n, sendMon("valid")))
		m01 = append(m01, n)
	}
	addProp(&Prop{
		id:     "M01",
		rule:   "abstract interpretation of every constructor, setter and channel from arbitrary arguments up to the encoded bytes: each of the header fields of the encoded message is shown not to be empty, to have at most its RFC length, and bytes in 33..126 only",
		passes: m01,
		want:   checkOf("M01"),
		floor:  12,
	})
}

func init() {
	var m02 []string
	for _, n := range []string{"Host", "LocalHost", "AppName", "ProcID", "MsgID", "Time", "Now", "Timestamp", "Delta", "Epoch", "Msg", "StructuredData", "Priority", "Values"} {
		n = "M02_" + n
		addPass(n, driverPass(n, sendMon("valid")))
		m02 = append(m02, n)
	}
	addPass("M02_Derived", driverPass("M02_Derived", func() *Mon { return &Mon{merge: 24} }))
	m02 = append(m02, "M02_Derived")
	addProp(&Prop{
		id:     "M02",
		rule:   "abstract interpretation of the encoding of an arbitrary message and of the one a setter makes of it: the contents of the fields are compared by provenance, all but the one of the setter are the same",
		passes: m02,
		want:   checkOf("M02"),
		floor:  12,
	})
}

// driverProp is a property decided by drivers
func driverProp(id, rule string, floor int, mon func() *Mon, drivers ...string) *Prop {
	p := &Prop{id: id, rule: rule, want: checkOf(id), floor: floor}
	for _, d := range drivers {
		n := id + "_" + d
		addPass(n, driverPass(n, many(d, mon)))
		p.passes = append(p.passes, n)
	}
	addProp(p)
	return p
}

// many keeps apart the iterations of the loops of the drivers whose name ends in Many:
// they assemble more pieces than any table of a handful has room for
func many(driver string, mon func() *Mon) func() *Mon {
	if !strings.HasSuffix(driver, "Many") {
		return mon
	}
	return func() *Mon {
		m := mon()
		m.delay = 32
		return m
	}
}

// checksOnly: the runtime errors of these functions are the concern of other properties
func (p *Prop) checksOnly() *Prop {
	w := p.want
	p.want = func(it *Item) bool { return !isPanicKind(it.Kind) && w(it) }
	return p
}

// also: these kinds of obligations are part of the property
func (p *Prop) also(kinds ...string) *Prop {
	w := p.want
	p.want = func(it *Item) bool {
		for _, k := range kinds {
			if it.Kind == k {
				return true
			}
		}
		return w(it)
	}
	return p
}

// frozenMon: what exists at driver.freeze is not written any more
func frozenMon(mon func() *Mon) func() *Mon {
	return func() *Mon {
		m := mon()
		m.freeze = true
		return m
	}
}

func init() {
	driverProp("M04", "abstract interpretation of the encoding of a message made of arbitrary legal fields: the contents of the fields of the encoded bytes are compared by provenance with the arguments",
		8, sendMon(""), "Prio", "Layout", "NoText")
	driverProp("M06", "abstract interpretation of the encoding, the decoding, the names and the parts of an arbitrary priority",
		8, sendMon(""), "Encode", "Range", "Decode", "Parts", "Names", "Locals", "Set")
	m07 := driverProp("M07", "abstract interpretation of the channels of a Syslog for every threshold and severity, and of the messages they and their derived channels give to Send",
		8, sendMon("chanSend"), "Filter", "FilterSub", "FilterSubSub", "Null", "Live", "Log", "App", "Sub", "SubSub", "AppApp", "Msgid", "MsgidMsgid", "MsgidApp", "AppMsgid")
	for _, n := range []string{"M07_Text", "M07_Data"} {
		addPass(n, driverPass(n, func() *Mon {
			m := sendMon("chanSend")()
			delete(m.model, listMarshal)
			return m
		}))
		m07.passes = append(m07.passes, n)
	}
	driverProp("M09", "abstract interpretation of the Write of a channel for any bytes, with a Send that fails or not",
		2, frozenMon(sendMon("chanSend")), "Write", "App", "Msgid").also("frozen")
}

func init() {
	plain := func() *Mon { return &Mon{merge: 24} }
	driverProp("D02", "abstract interpretation of the strips of every transport and of Parse from unknown bytes: the positions and lengths of the frame and of the rest in the buffer are compared",
		20, frozenMon(plain), "Zero", "LF", "Counted", "Other", "ParseZero", "ParseLF", "ParseCounted").also("frozen")
	driverProp("D03", "abstract interpretation of Encode and of the strip of the same transport on what it made, followed by unknown bytes: lengths, delimiters and contents are compared by provenance",
		12, frozenMon(plain), "Zero", "LF", "CleanZero", "CleanLF", "Counted").also("frozen")
}

func init() {
	addPass("D06_Receiver", rootsPass("D06_Receiver", recvMon, "rcvStart", "rcvEnd"))
	rule := "abstract interpretation of the goroutines of a Receiver, with a listener and connections that do anything their contracts allow and Parse cut at its contract: "
	for id, r := range map[string]string{
		"D05": "typestate of the connection (read, ended, closed), and room in the buffer",
		"D06": "the bytes given to Parse are compared by provenance with the part of the stream received and not consumed; typestate of the results owed to the pipeline",
		"D07": "typestate of the errors, of the readers and of the pipeline; only non-blocking sends of errors",
	} {
		addProp(&Prop{id: id, rule: rule + r, passes: []string{"D06_Receiver"}, want: checkOf(id), floor: 10})
	}
}
