package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// netMon gives the contracts of the package net to the drivers
func netMon() *Mon {
	m := &Mon{model: map[string]modelFn{}, merge: 16, freeze: true}
	call := func(name string, n int) modelFn {
		return func(x *X, st *State, c *callCtx) []Outcome {
			return x.driverCall(st, name, c.site, c.args[:n]...)
		}
	}
	// on is a method of a connection: the receiver may be the structure it embeds
	on := func(name string, n int) modelFn {
		return func(x *X, st *State, c *callCtx) []Outcome {
			args := append([]Val(nil), c.args[:n]...)
			p, ok := st.resolve(args[0]).(PtrV)
			if !ok {
				if _, null := st.resolve(args[0]).(NilV); null {
					x.fail(st, c.site, "nil", "method of a nil connection")
					return []Outcome{}
				}
				panic(giveUp{"a connection that is not known"})
			}
			if len(p.path) > 0 || p.elem {
				p = PtrV{obj: p.obj}
			}
			args[0] = IfaceV{types.NewPointer(st.objs[p.obj].typ), p}
			return x.driverCall(st, name, c.site, args...)
		}
	}
	m.model["net.DialUnix"] = call("nwDialUnix", 3)
	m.model["net.ResolveUnixAddr"] = call("nwResolveUnix", 2)
	m.model["net.SplitHostPort"] = call("nwSplit", 1)
	m.model["strconv.Atoi"] = call("nwPort", 1)
	m.model["strconv.ParseInt"] = call("nwPort", 1)
	m.model["strconv.ParseUint"] = call("nwPort", 1)
	m.model["(*net.Resolver).LookupIPAddr"] = call("nwLookup", 3)
	m.model["context.WithTimeout"] = call("nwTimeout", 2)
	m.model["net.DialTCP"] = call("nwDialTCP", 3)
	m.model["net.ResolveTCPAddr"] = call("nwResolveTCP", 2)
	for _, t := range []string{"(*net.conn)", "(*net.UnixConn)", "(*net.TCPConn)"} {
		m.model[t+".Close"] = on("nwClosed", 1)
		m.model[t+".Write"] = on("nwWrite", 2)
		m.model[t+".Read"] = on("nwRead", 2)
		m.model[t+".ReadFrom"] = on("nwReadFrom", 2)
		m.model[t+".ReadFromUnix"] = on("nwReadFromUnix", 2)
	}
	m.model["(*os.File).Write"] = call("nwFileWrite", 2)
	m.model["(*os.File).Close"] = call("nwFileClose", 1)
	m.model[modpath+".NewSender"] = call("nwNewSender", 3)
	m.model["time.Tick"] = call("nwTick", 1)
	m.model["time.NewTicker"] = call("nwNewTicker", 1)
	m.model["(*time.Ticker).Stop"] = call("nwStopTicker", 1)
	m.model["(io/fs.FileMode).Type"] = call("nwModeType", 1)
	m.model["(io/fs.FileMode).IsDir"] = call("nwModeIsDir", 1)
	m.model["(io/fs.FileMode).IsRegular"] = call("nwModeIsRegular", 1)
	m.model["os.Lstat"] = call("nwLstat", 1)
	m.model["os.Stat"] = call("nwStat", 1)
	m.model["os.Remove"] = call("nwRemove", 1)
	m.model["os.RemoveAll"] = call("nwRemove", 1)
	m.model["syscall.Unlink"] = call("nwRemove", 1)
	m.model["(*os.SyscallError).Error"] = call("nwSysErr", 1)
	m.model["(syscall.Errno).Error"] = call("nwErrno", 1)
	m.model["net.ListenUnix"] = call("nwListenUnix", 2)
	m.model["net.ListenUnixgram"] = call("nwListenGram", 2)
	m.model["net.ListenTCP"] = call("nwListenTCP", 2)
	m.model["(*net.UnixListener).AcceptUnix"] = call("nwAcceptUnix", 1)
	m.model["(*net.TCPListener).AcceptTCP"] = call("nwAcceptTCP", 1)
	m.model["(*net.UnixListener).Close"] = call("nwShutUnix", 1)
	m.model["(*net.TCPListener).Close"] = call("nwShutTCP", 1)
	m.chanRecv = func(x *X, st *State, site ssa.Instruction, ch Val, t types.Type) []Outcome {
		return ret1(st, TupleV{[]Val{st.zeroVal(t), boolC(false)}})
	}
	return m
}

func init() {
	// a WriteCloser that net.Buffers writes at once
	models["driver.merges"] = func(x *X, st *State, c *callCtx) []Outcome {
		switch v := st.resolve(c.args[0]).(type) {
		case IfaceV:
			ms := x.w.prog.MethodSets.MethodSet(v.typ)
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Name() == "writeBuffers" {
					return ret1(st, boolC(true))
				}
			}
			return ret1(st, boolC(false))
		}
		return ret1(st, st.freshBool("merges"))
	}
	for id, p := range map[string]struct {
		rule    string
		floor   int
		drivers []string
	}{
		"N01": {"each connector is interpreted up to Connect, for all results of resolution and dialing: typestate of the connections made, provenance of what is dialed", 20,
			[]string{"N01_Unix", "N01_Unixgram", "N01_Local", "N01_Guess", "N01_TCP", "N01_TCP4", "N01_TCP6", "N01_Refused_Long", "N01_Refused_Other", "N01_Refused_Alike", "N01_Stdio"}},
		"N02": {"in the same interpretation, the method set of the connection returned for datagrams lacks the method by which net.Buffers writes several messages at once, and its Write hands the message to the connection, once and whole", 5,
			[]string{"N01_Unix", "N01_Unixgram", "N01_Local", "N01_Guess", "N01_TCP", "N01_TCP4", "N01_TCP6", "N01_Stdio"}},
		"N03": {"Dial is interpreted for each network and for any other, with and without a transport, for any delay: provenance of the connector, transport and ticker given to NewSender", 20,
			[]string{"N03_Stdio", "N03_Local", "N03_Unix", "N03_Unixgram", "N03_TCP", "N03_TCP4", "N03_TCP6", "N03_Unknown_Long", "N03_Unknown_Other", "N03_Unknown_Alike"}},
		"N04": {"each listener is interpreted for all results of listening, of looking at its address and of accepting: typestate of the listeners and of the address", 20,
			[]string{"N04_Unix", "N04_GuessUnix", "N04_TCP", "N04_TCP4", "N04_TCP6", "N04_GuessTCP", "N04_GuessTCP4", "N04_GuessTCP6", "N04_Unknown_Long", "N04_Unknown_Other", "N04_Unknown_Alike", "N04_Unixgram"}},
		"N05": {"reading the connection of a datagram listener any number of times is interpreted with datagrams of any length: the bytes are compared by provenance with those received", 8,
			[]string{"N05_Read", "N04_Unixgram"}},
	} {
		for _, d := range p.drivers {
			if passes[d] == nil {
				// the networks that are guessed are counted
				exact := strings.HasSuffix(d, "_Local") || strings.HasSuffix(d, "_Guess")
				run := driverPass(d, netMon)
				addPass(d, func(w *World, r *Result) error {
					if exact {
						exactKeys = 2
					}
					return run(w, r)
				})
			}
		}
		addProp(&Prop{id: id, rule: p.rule, floor: p.floor, passes: p.drivers, want: checkOf(id)})
	}
}
