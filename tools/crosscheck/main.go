// Compares the streams of harness/examples/crosscheck.rs with x/net's hpack.
package main

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"fmt"
	"os"
	"strings"

	"golang.org/x/net/http2/hpack"
	"google.golang.org/protobuf/encoding/protowire"
)

func un(s string) []byte {
	if s == "." {
		return nil
	}
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

func main() {
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(nil, 1<<26)
	var d *hpack.Decoder
	var got, want []string
	var block []byte
	alive := false
	counts := map[string]int{}
	bad := 0
	report := func(f string, a ...any) {
		bad++
		if bad < 20 {
			fmt.Printf(f+"\n", a...)
		}
	}
	for in.Scan() {
		f := strings.Split(in.Text(), " ")
		switch f[0] {
		case "C":
			var n uint32
			fmt.Sscan(f[1], &n)
			d = hpack.NewDecoder(n, func(h hpack.HeaderField) {
				s := "0"
				if h.Sensitive {
					s = "1"
				}
				got = append(got, hex.EncodeToString([]byte(h.Name))+" "+hex.EncodeToString([]byte(h.Value))+" "+s)
			})
			alive = true
		case "B":
			block = un(f[1])
			got, want = nil, nil
		case "H":
			want = append(want, hex.EncodeToString(un(f[1]))+" "+hex.EncodeToString(un(f[2]))+" "+f[3])
		case "E":
			if !alive {
				continue
			}
			kind := strings.Join(f[1:], " ")
			if strings.Contains(kind, "late") || kind == "Overflow" {
				// x/net refuses late updates and reads longer integers
				alive = false
				counts["skipped "+kind]++
				continue
			}
			_, err := d.Write(block)
			if e := d.Close(); err == nil {
				err = e
			}
			counts[kind]++
			if (err != nil) != (kind != "ok") {
				report("block %x: x/net says %v, the model %s", block, err, kind)
			}
			if strings.Join(got, ";") != strings.Join(want, ";") {
				report("block %x: x/net delivers %v, the model %v", block, got, want)
			}
			alive = err == nil
		case "P":
			block = un(f[1])
			got, want = nil, nil
		case "F":
			want = append(want, f[1]+" "+f[2]+" "+hex.EncodeToString(un(f[3])))
		case "Q":
			kind := strings.Join(f[1:], " ")
			counts["message "+kind]++
			b := block
			end := "complete"
			for len(b) > 0 {
				num, typ, n := protowire.ConsumeTag(b)
				if n < 0 {
					end = protowire.ParseError(n).Error()
					break
				}
				if num > 1<<29-1 {
					end = "key"
					break
				}
				if typ != 0 && typ != 1 && typ != 2 && typ != 5 {
					end = "type"
					break
				}
				m := protowire.ConsumeFieldValue(num, typ, b[n:])
				if m < 0 {
					end = protowire.ParseError(m).Error()
					break
				}
				v := b[n : n+m]
				if typ == 2 {
					v, _ = protowire.ConsumeBytes(v)
				}
				got = append(got, fmt.Sprintf("%d %d %s", num, typ, hex.EncodeToString(v)))
				b = b[n+m:]
			}
			if strings.Join(got, ";") != strings.Join(want, ";") {
				report("message %x: protowire reads %v, the model %v", block, got, want)
			}
			fine := map[string]string{"complete": "complete", "unexpected EOF": "more", "type": "bad unsupported wire type", "key": "bad key of more than 32 bits"}
			w, ok := fine[end]
			if ok && w != kind || !ok && (kind == "complete" || kind == "more") {
				report("message %x: protowire ends %s, the model %s", block, end, kind)
			}
		case "V":
			var raw uint64
			fmt.Sscan(f[2], &raw)
			var e []byte
			switch f[1] {
			case "Bool":
				e = protowire.AppendVarint(e, protowire.EncodeBool(raw != 0))
			case "Int32":
				e = protowire.AppendVarint(e, uint64(int32(raw)))
			case "SInt32":
				e = protowire.AppendVarint(e, protowire.EncodeZigZag(int64(int32(raw))))
			case "SInt64":
				e = protowire.AppendVarint(e, protowire.EncodeZigZag(int64(raw)))
			case "Int64", "UInt64", "UInt32":
				e = protowire.AppendVarint(e, raw)
			case "Fixed32", "SFixed32", "Float":
				e = protowire.AppendFixed32(e, uint32(raw))
			default:
				e = protowire.AppendFixed64(e, raw)
			}
			counts["scalar"]++
			if !bytes.Equal(e, un(f[3])) {
				report("%s %d: protowire writes %x, the model %s", f[1], raw, e, f[3])
			}
		case "S":
			var b bytes.Buffer
			_, err := hpack.HuffmanDecode(&b, un(f[1]))
			counts["huffman"]++
			if (err != nil) != (f[2] == "-") || (err == nil && !bytes.Equal(b.Bytes(), un(f[2]))) {
				report("huffman %s: x/net says %x %v, the model %s", f[1], b.Bytes(), err, f[2])
			}
		}
	}
	fmt.Println(counts, "differences:", bad)
	if bad > 0 {
		os.Exit(1)
	}
}
