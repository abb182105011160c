package drv

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/bifurcation/mint"
)

// allFields copies every public field (slices: their elements).
func allFields(m *mint.Config) map[string]reflect.Value {
	o := map[string]reflect.Value{}
	v := reflect.ValueOf(m).Elem()
	for _, n := range ConfigFields() {
		f := v.FieldByName(n)
		c := reflect.New(f.Type()).Elem()
		if f.Kind() == reflect.Slice && f.Len() > 0 {
			c.Set(reflect.AppendSlice(reflect.MakeSlice(f.Type(), 0, f.Len()), f))
		} else {
			c.Set(f)
		}
		o[n] = c
	}
	return o
}

// changed names a field that differs from its copy.  Lists and caches that the user left empty may be
// completed with defaults: that changes nothing that the user can tell.
func changed(u map[string]reflect.Value, m *mint.Config) string {
	v := reflect.ValueOf(m).Elem()
	for _, n := range ConfigFields() {
		k := v.FieldByName(n).Kind()
		if k != reflect.String && k != reflect.Bool {
			continue
		}
		if !FieldEqual(n, v.FieldByName(n), u[n]) {
			return fmt.Sprintf("%s from %v to %v", n, u[n], v.FieldByName(n))
		}
	}
	return ""
}

type netEnd struct {
	c   *mint.Conn
	err error
	got []byte
}

// runNet runs the connections of a case at the same time over loopback TCP: one mint listener per server Config,
// one mint.Dial per connection.
func runNet(k CfgCase, cfg []*mint.Config, badf func(string, ...interface{})) {
	var mu sync.Mutex
	srv := map[string]*netEnd{} // by the client's address
	var wg, acc sync.WaitGroup
	ls := map[int]net.Listener{}
	for i := range cfg {
		if k.Side(i) {
			continue
		}
		l, err := mint.Listen("tcp", "127.0.0.1:0", cfg[i])
		if err != nil {
			badf("Config %d: Listen: %v", i+1, err)
			return
		}
		ls[i] = l
		acc.Add(1)
		go func() {
			defer acc.Done()
			for {
				c, err := l.Accept()
				if c == nil {
					return
				}
				x, ok := c.(*mint.Conn)
				if !ok {
					if err != nil {
						return
					}
					badf("Accept returns a %T", c)
					return
				}
				e := &netEnd{c: x, err: err}
				mu.Lock()
				srv[x.RemoteAddr().String()] = e
				mu.Unlock()
				if err != nil {
					x.Close()
					continue
				}
				wg.Add(1)
				go func() { // echo
					defer wg.Done()
					b := make([]byte, 4096)
					for {
						n, err := x.Read(b)
						mu.Lock()
						e.got = append(e.got, b[:n]...)
						mu.Unlock()
						if n > 0 {
							if _, err := x.Write(b[:n]); err != nil {
								break
							}
						}
						if err != nil {
							break
						}
					}
					x.Close()
				}()
			}
		}()
	}
	start := make(chan struct{})
	cli := make([]*netEnd, len(k.Par))
	addr := make([]string, len(k.Par))
	sent := make([][]byte, len(k.Par))
	var dials sync.WaitGroup
	for i := range k.Par {
		x := k.Par[i]
		dials.Add(1)
		go func(i int) {
			defer dials.Done()
			<-start
			e := &netEnd{}
			cli[i] = e
			e.c, e.err = mint.Dial("tcp", ls[x.S-1].Addr().String(), cfg[x.C-1])
			if e.err != nil {
				return
			}
			addr[i] = e.c.LocalAddr().String()
			sent[i] = bytes.Repeat([]byte{byte(1 + i)}, 700+i)
			if n, err := e.c.Write(sent[i]); err != nil || n != len(sent[i]) {
				badf("connection %d: Write: %d %v", i+1, n, err)
				e.c.Close()
				return
			}
			e.c.SetReadDeadline(time.Now().Add(60 * time.Second))
			b := make([]byte, len(sent[i]))
			for len(e.got) < len(sent[i]) {
				n, err := e.c.Read(b)
				e.got = append(e.got, b[:n]...)
				if err != nil && err != io.EOF {
					break
				}
				if err == io.EOF {
					break
				}
			}
		}(i)
	}
	// a Config without a name is given to Dial for servers of different names
	lone := &mint.Config{InsecureSkipVerify: true}
	was := allFields(lone)
	for _, l := range ls {
		a := l.Addr().String()
		for _, to := range []string{a, "localhost" + a[strings.LastIndex(a, ":"):]} {
			dials.Add(1)
			go func() {
				defer dials.Done()
				<-start
				if c, err := mint.Dial("tcp", to, lone); err == nil {
					c.Close()
				}
			}()
		}
	}
	close(start)
	dials.Wait()
	if d := changed(was, lone); d != "" {
		badf("Dial changes the Config: %s", d)
	}
	type out struct {
		cs, ss mint.ConnectionState
	}
	var outs = make([]*out, len(k.Par))
	for i := range k.Par {
		if cli[i].err == nil {
			outs[i] = &out{cs: cli[i].c.ConnectionState()}
			cli[i].c.Close()
		}
	}
	for _, l := range ls {
		l.Close()
	}
	acc.Wait()
	wg.Wait()
	for i, x := range k.Par {
		got := CfgRes{OK: cli[i].err == nil}
		s := srv[addr[i]]
		if got.OK && (s == nil || s.err != nil) {
			// the server may still refuse what the client has sent last
			got.OK = false
		}
		if got.OK {
			a, b := outs[i].cs, s.c.ConnectionState()
			if a.CipherSuite.Suite != b.CipherSuite.Suite || a.UsingPSK != b.UsingPSK || a.NextProto != b.NextProto {
				badf("connection %d: the ends differ: %+v %+v", i+1, a, b)
			}
			if !bytes.Equal(cli[i].got, sent[i]) || !bytes.Equal(s.got, sent[i]) {
				badf("connection %d: %d bytes sent, %d received, %d echoed, or other bytes", i+1, len(sent[i]), len(s.got), len(cli[i].got))
			}
			got.PSK, got.Proto = a.UsingPSK, a.NextProto
			got.Suite = map[mint.CipherSuite]string{mint.TLS_AES_128_GCM_SHA256: "a", mint.TLS_AES_256_GCM_SHA384: "b"}[a.CipherSuite.Suite]
		}
		ok := false
		for _, a := range x.All {
			ok = ok || !a.OK && !got.OK || a == got
		}
		if !ok {
			badf("connection %d: outcome %+v (client %v), alone it would be one of %+v", i+1, got, cli[i].err, x.All)
		}
	}
}
