package drv

import (
	"encoding/binary"
	"fmt"
	"reflect"
	"unsafe"

	"verifharness/eut"
)

// SetSeq moves the sequence number of what an endpoint sends next.  There is no public
// way to get there, so this looks for the field; it reports false if there is none.
func SetSeq(e *eut.EUT, dir string, v uint64) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	f := reflect.ValueOf(e.C).Elem().FieldByName(dir)
	for f.Kind() == reflect.Interface || f.Kind() == reflect.Ptr {
		f = f.Elem()
	}
	for _, name := range []string{"DefaultRecordLayer", "cipher", "seq"} {
		x := f.FieldByName(name)
		if !x.IsValid() {
			if name == "DefaultRecordLayer" {
				continue
			}
			return false
		}
		for x.Kind() == reflect.Ptr || x.Kind() == reflect.Interface {
			x = x.Elem()
		}
		f = x
	}
	if f.Kind() != reflect.Uint64 || !f.CanAddr() {
		return false
	}
	*(*uint64)(unsafe.Pointer(f.UnsafeAddr())) = v
	return true
}

// WrapRun writes past the end of the sequence space.  TLS: the events since the jump, with
// sequence numbers relative to it (-1: wrapped).
func WrapRun(mode string, server bool, base uint64, n int) (ev []eut.RecEvent, done bool, note string) {
	r := NewStreamRun(mode, caseRand(), false)
	if len(r.Bad) > 0 {
		return nil, false, r.Bad[0]
	}
	x, side := r.P.Cli, "c"
	if server {
		x, side = r.P.Srv, "s"
	}
	if !SetSeq(x, "out", base) {
		return nil, false, "no such field"
	}
	at := len(r.Tr.Events())
	for i := 0; i < n; i++ {
		if _, err, o, _ := x.Write([]byte(fmt.Sprint("record ", i))); err != nil || o != "" {
			break
		}
	}
	for _, e := range r.Tr.Events()[at:] {
		if e.Side != side || e.Op != "seal" {
			continue
		}
		q := binary.BigEndian.Uint64([]byte(e.Nonce)[len(e.Nonce)-8:]) ^ binary.BigEndian.Uint64([]byte(e.IV)[len(e.IV)-8:])
		if q < base {
			e.Seq = -1
		} else {
			e.Seq = int64(q - base)
		}
		e.Side = side
		ev = append(ev, e)
	}
	return ev, true, ""
}
