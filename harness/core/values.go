package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/boynton/sadl"

	. "verif/harness/kit"
)

func ffmt(f float64) string { return strconv.FormatFloat(f, 'f', -1, 64) }

func decObs(d *sadl.Decimal, exact bool) J {
	b, err := json.Marshal(d)
	js := string(b)
	if err != nil {
		js = "!error"
	}
	o := J{"st": "ok", "text": d.String(), "json": js, "i64": fmt.Sprint(d.AsInt64()), "i32": fmt.Sprint(d.AsInt32()), "f64": ffmt(d.AsFloat64())}
	d2, err := sadl.ParseDecimal(d.String())
	if err != nil {
		o["again"] = "!error"
	} else {
		o["again"] = d2.String()
		if exact && d2.Cmp(d.AsBigFloat()) != 0 {
			o["again"] = "!differs"
		}
	}
	var d3 sadl.Decimal
	if err := json.Unmarshal([]byte(js), &d3); err != nil {
		o["jagain"] = "!error"
	} else {
		o["jagain"] = d3.String()
	}
	return o
}

func tsObs(ts sadl.Timestamp) J {
	u := ts.Time.UTC()
	b, err := json.Marshal(ts)
	js := string(b)
	if err != nil {
		js = "!error"
	}
	o := J{"st": "ok", "y": u.Year(), "mo": int(u.Month()), "d": u.Day(), "h": u.Hour(), "mi": u.Minute(), "s": u.Second(), "ns": u.Nanosecond(), "text": ts.String(), "json": js}
	o["again"] = again(ts.String())
	o["jagain"] = "!error"
	var t2 sadl.Timestamp
	if json.Unmarshal(b, &t2) == nil {
		o["jagain"] = t2.String()
	}
	return o
}

// the text of what the text of a timestamp parses to, and whether it is the same instant
func again(s string) string {
	t, err := sadl.ParseTimestamp(s)
	if err != nil {
		return "!error"
	}
	return t.String()
}

func quote(s string) string {
	b, _ := json.Marshal(s)
	return string(b)
}

func uvObs(u *sadl.UnitValue) J {
	b, err := json.Marshal(u)
	o := J{"st": "ok", "value": u.Value.String(), "unit": u.Unit, "text": u.String()}
	var s string
	o["json"] = "!error"
	if err == nil && json.Unmarshal(b, &s) == nil {
		o["json"] = s
	}
	o["av"], o["au"] = "!error", "!error"
	var u2 sadl.UnitValue
	if err == nil && json.Unmarshal(b, &u2) == nil {
		o["av"], o["au"] = u2.Value.String(), u2.Unit
	}
	return o
}

func init() {
	Ops["dec.parse"] = func(in J) J {
		d, err := sadl.ParseDecimal(Str(in, "t"))
		if err != nil {
			return J{"st": "err"}
		}
		return decObs(d, true)
	}
	Ops["dec.json"] = func(in J) J {
		var d sadl.Decimal
		if err := json.Unmarshal([]byte(Str(in, "t")), &d); err != nil {
			return J{"st": "err"}
		}
		return decObs(&d, true)
	}
	Ops["dec.field"] = func(in J) J { // a Decimal inside a larger value
		var v struct {
			A *sadl.Decimal  `json:"a"`
			B []sadl.Decimal `json:"b"`
		}
		if err := json.Unmarshal([]byte(`{"a":`+Str(in, "t")+`,"b":[`+Str(in, "t")+`,1]}`), &v); err != nil {
			return J{"st": "err"}
		}
		b, err := json.Marshal(v)
		if err != nil {
			return J{"st": "panic", "msg": err.Error()}
		}
		return J{"st": "ok", "json": string(b)}
	}
	Ops["dec.value"] = func(in J) J {
		t := Str(in, "t")
		var defval interface{}
		i, _ := strconv.ParseInt(t, 10, 64)
		f, _ := strconv.ParseFloat(t, 64)
		switch Str(in, "as") {
		case "nil":
		case "int":
			defval = int(i)
		case "int64":
			defval = i
		case "int32":
			defval = int32(i)
		case "int16":
			defval = int16(i)
		case "int8":
			defval = int8(i)
		case "float64":
			defval = f
		case "float32":
			defval = float32(f)
		case "decimal":
			defval, _ = sadl.ParseDecimal(t)
		}
		var val *sadl.Decimal
		if Str(in, "v") != "" {
			val, _ = sadl.ParseDecimal(Str(in, "v"))
		}
		r := sadl.DecimalValue(val, defval)
		if r == nil {
			return J{"st": "nil"}
		}
		return decObs(r, false)
	}
	Ops["dec.new"] = func(in J) J {
		f, err := strconv.ParseFloat(Str(in, "t"), 64)
		if err != nil {
			return J{"st": "err"}
		}
		return decObs(sadl.NewDecimal(f), false)
	}
	Ops["ts.parse"] = func(in J) J {
		t, err := sadl.ParseTimestamp(Str(in, "t"))
		if err != nil {
			return J{"st": "err"}
		}
		return tsObs(t)
	}
	Ops["ts.json"] = func(in J) J {
		var t sadl.Timestamp
		if err := json.Unmarshal([]byte(quote(Str(in, "t"))), &t); err != nil {
			return J{"st": "err"}
		}
		return tsObs(t)
	}
	Ops["ts.rawjson"] = func(in J) J {
		var t sadl.Timestamp
		if err := json.Unmarshal([]byte(Str(in, "t")), &t); err != nil {
			return J{"st": "err"}
		}
		return tsObs(t)
	}
	Ops["ts.print"] = func(in J) J {
		z := time.UTC
		if off := Int(in, "off"); off != 0 {
			z = time.FixedZone("X", off*60)
		}
		if Int(in, "off") == 330 {
			z = time.Local
		}
		t := sadl.Timestamp{Time: time.Date(Int(in, "y"), time.Month(Int(in, "mo")), Int(in, "d"), Int(in, "h"), Int(in, "mi"), Int(in, "s"), Int(in, "ns"), z)}
		return tsObs(t)
	}
	Ops["uuid.parse"] = func(in J) J {
		u := sadl.ParseUUID(Str(in, "t"))
		if u == "" {
			return J{"st": "err"}
		}
		return J{"st": "ok", "text": string(u)}
	}
	Ops["uuid.json"] = func(in J) J {
		var u sadl.UUID
		if err := json.Unmarshal([]byte(quote(Str(in, "t"))), &u); err != nil {
			return J{"st": "err"}
		}
		b, err := json.Marshal(u)
		if err != nil {
			return J{"st": "panic", "msg": err.Error()}
		}
		var s string
		if err := json.Unmarshal(b, &s); err != nil {
			return J{"st": "panic", "msg": err.Error()}
		}
		return J{"st": "ok", "text": s}
	}
	Ops["uuid.rawjson"] = func(in J) J {
		var u sadl.UUID
		if err := json.Unmarshal([]byte(Str(in, "t")), &u); err != nil {
			return J{"st": "err"}
		}
		return J{"st": "ok", "text": string(u)}
	}
	Ops["uv.parse"] = func(in J) J {
		u, err := sadl.ParseUnitValue(Str(in, "t"))
		if err != nil {
			return J{"st": "err"}
		}
		return uvObs(u)
	}
	Ops["uv.json"] = func(in J) J {
		var u sadl.UnitValue
		if err := json.Unmarshal([]byte(quote(Str(in, "t"))), &u); err != nil {
			return J{"st": "err"}
		}
		return uvObs(&u)
	}
	Ops["uv.rawjson"] = func(in J) J {
		var u sadl.UnitValue
		if err := json.Unmarshal([]byte(Str(in, "t")), &u); err != nil {
			return J{"st": "err"}
		}
		return uvObs(&u)
	}
	Ops["uv.new"] = func(in J) J {
		f, err := strconv.ParseFloat(Str(in, "t"), 64)
		if err != nil {
			return J{"st": "err"}
		}
		return uvObs(sadl.NewUnitValue(f, Str(in, "u")))
	}
	Gens["P01"] = genDecimals
	Gens["P02"] = genTimestamps
	Gens["P03"] = genUUIDs
	Gens["P04"] = genUnitValues
}

func digits(r *rand.Rand, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch r.Intn(6) {
		case 0:
			b.WriteByte('0')
		case 1:
			b.WriteByte('9')
		default:
			b.WriteByte(byte('0' + r.Intn(10)))
		}
	}
	return b.String()
}

func pick(r *rand.Rand, a ...string) string { return a[r.Intn(len(a))] }

func randLen(r *rand.Rand) int {
	switch r.Intn(6) {
	case 0:
		return 1
	case 1:
		return 18 + r.Intn(4)
	case 2:
		return 8 + r.Intn(4)
	case 3:
		return 20 + r.Intn(40)
	default:
		return 1 + r.Intn(8)
	}
}

// a decimal number in any of the accepted notations
func decimalText(r *rand.Rand) string {
	if r.Intn(8) == 0 { // limits of the machine types, and their neighbours
		s := pick(r, "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
			"2147483647", "-2147483648", "2147483648", "-2147483649", "9007199254740993", "4294967296", "32767", "-32768", "127", "-128", "0.1", "1e-7", "100000000000000000000000000000")
		if r.Intn(3) == 0 && !strings.ContainsAny(s, ".e") {
			s += "." + digits(r, 1+r.Intn(3))
		}
		return s
	}
	s := pick(r, "", "", "", "-", "+")
	switch r.Intn(5) {
	case 0:
		s += digits(r, randLen(r))
	case 1:
		s += digits(r, randLen(r)) + "." + digits(r, randLen(r))
	case 2:
		s += "0." + strings.Repeat("0", r.Intn(20)) + digits(r, 1+r.Intn(20))
	case 3:
		s += pick(r, ".", "0.", "00.") + digits(r, 1+r.Intn(10))
	case 4:
		s += digits(r, 1+r.Intn(5)) + strings.Repeat("0", r.Intn(30)) + pick(r, "", ".")
	}
	if r.Intn(3) == 0 {
		s += pick(r, "e", "E") + pick(r, "", "+", "-") + digits(r, 1+r.Intn(2))
	}
	return s
}

const alphabet = "0123456789abcdefABCDEFgzGZ-+.: TtZ_eEx/,\"\\{}[]"

func mutate(r *rand.Rand, s string) string {
	b := []byte(s)
	for k := 1 + r.Intn(2); k > 0; k-- {
		c := alphabet[r.Intn(len(alphabet))]
		i := r.Intn(len(b) + 1)
		switch r.Intn(4) {
		case 0:
			b = append(b[:i], append([]byte{c}, b[i:]...)...)
		case 1:
			if i < len(b) {
				b = append(b[:i], b[i+1:]...)
			}
		case 2:
			if i < len(b) {
				b[i] = c
			}
		case 3:
			if i+1 < len(b) {
				b[i], b[i+1] = b[i+1], b[i]
			}
		}
	}
	if m := bigExp.FindStringSubmatch(string(b)); m != nil && len(m[1]) > 3 {
		return s // an exponent that large is only slow
	}
	return string(b)
}

var bigExp = regexp.MustCompile(`[eEpP][-+]?0*([0-9]+)`)

func genDecimals(r *rand.Rand, n int, emit func(string, J)) {
	for i := 0; i < n; i++ {
		t := decimalText(r)
		switch r.Intn(10) {
		case 0:
			emit("dec.parse", J{"t": mutate(r, t)})
		case 1:
			emit("dec.json", J{"t": mutate(r, t)})
		case 2, 3:
			emit("dec.json", J{"t": t})
		case 4:
			emit("dec.field", J{"t": t})
		case 5:
			v := ""
			if r.Intn(3) == 0 {
				v = decimalText(r)
			}
			as := pick(r, "nil", "int", "int64", "int32", "int16", "int8", "float64", "float32", "decimal")
			switch as {
			case "int", "int64":
				t = pick(r, "9223372036854775807", "-9223372036854775808", fmt.Sprint(r.Int63()), fmt.Sprint(-r.Int63()), fmt.Sprint(r.Intn(1000)))
			case "int32":
				t = pick(r, "2147483647", "-2147483648", fmt.Sprint(int32(r.Uint32())))
			case "int16":
				t = pick(r, "32767", "-32768", fmt.Sprint(int16(r.Uint32())))
			case "int8":
				t = pick(r, "127", "-128", fmt.Sprint(int8(r.Uint32())))
			case "float64", "float32":
				t = pick(r, "", "-") + fmt.Sprint(r.Intn(2000)) + pick(r, "", ".5", ".25", ".75")
			}
			emit("dec.value", J{"t": t, "as": as, "v": v})
		case 6:
			emit("dec.new", J{"t": pick(r, "", "-") + digits(r, 1+r.Intn(7)) + "." + digits(r, 1+r.Intn(7))})
		case 7:
			if r.Intn(4) == 0 {
				emit("dec.parse", J{"t": pick(r, "", "-") + "1" + digits(r, 70+r.Intn(100)) + pick(r, "", "."+digits(r, 40))})
				continue
			}
			emit("dec.parse", J{"t": pick(r, "Inf", "-Inf", "+Inf", "inf", "NaN", "nan", "", " ", "1 ", " 1", "1,000", "0x10", "1_000", "--1", "1e", "e5", ".", "+", "-", "1.2.3", "true", "null", "0b1", "１", "1e5.5", "infinity", "Infinity", "١", "1.e5", ".e5")})
		default:
			emit("dec.parse", J{"t": t})
		}
	}
}

func timestampText(r *rand.Rand) string {
	y := pick(r, "2019", "2020", "2000", "1900", "1970", "0001", "0000", "0099", "9999", "2100", "2400", "2024", "1583", fmt.Sprintf("%04d", r.Intn(10000)))
	mo := pick(r, "02", "02", "12", "01", "00", "13", fmt.Sprintf("%02d", 1+r.Intn(12)))
	d := pick(r, "28", "29", "30", "31", "01", "00", "32", fmt.Sprintf("%02d", 1+r.Intn(28)))
	h := pick(r, "00", "23", "24", fmt.Sprintf("%02d", r.Intn(24)), fmt.Sprintf("%02d", r.Intn(24)))
	mi := pick(r, "00", "59", "60", fmt.Sprintf("%02d", r.Intn(60)), fmt.Sprintf("%02d", r.Intn(60)))
	s := pick(r, "00", "59", "60", fmt.Sprintf("%02d", r.Intn(60)), fmt.Sprintf("%02d", r.Intn(60)))
	f := pick(r, "", ".0", ".9", ".99", ".999", ".001", ".010", "."+digits(r, 3), "."+digits(r, 6), "."+digits(r, 9), "."+digits(r, 1+r.Intn(9)))
	z := pick(r, "Z", "Z", "Z", "Z", "+00:00", "-00:00", "+0000", "-0000", "+01:00", "-08:00", "", "z", "+00", "GMT")
	return y + "-" + mo + "-" + d + "T" + h + ":" + mi + ":" + s + f + z
}

func goodTimestampText(r *rand.Rand) string {
	y, mo := r.Intn(10000), 1+r.Intn(12)
	d := 1 + r.Intn(time.Date(y, time.Month(mo)+1, 0, 0, 0, 0, 0, time.UTC).Day())
	if r.Intn(4) == 0 {
		d = time.Date(y, time.Month(mo)+1, 0, 0, 0, 0, 0, time.UTC).Day()
	}
	return fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d", y, mo, d, r.Intn(24), r.Intn(60), r.Intn(60)) +
		pick(r, "", "."+digits(r, 1+r.Intn(9)), "."+digits(r, 3)) + pick(r, "Z", "Z", "+00:00", "-00:00", "+0000", "-0000")
}

func genTimestamps(r *rand.Rand, n int, emit func(string, J)) {
	op := func() string { return pick(r, "ts.parse", "ts.parse", "ts.json") }
	for i := 0; i < n; i++ {
		switch r.Intn(8) {
		case 0, 1:
			emit(op(), J{"t": goodTimestampText(r)})
		case 2, 3:
			emit(op(), J{"t": timestampText(r)})
		case 4:
			emit(op(), J{"t": mutate(r, goodTimestampText(r))})
		case 5:
			emit("ts.rawjson", J{"t": pick(r, "1", "{}", "[]", "true", "1549234099043", `"x"`, `""`, `["2019-02-03T22:48:19.043Z"]`)})
		default:
			off := 0
			if r.Intn(2) == 0 {
				off = []int{60, -60, 330, -480, 840, -720, 1, -1, 1439, -1439}[r.Intn(10)]
			}
			y, mo, d := r.Intn(9998)+1, 1+r.Intn(12), 1+r.Intn(28)
			h, mi, s, ns := r.Intn(24), r.Intn(60), r.Intn(60), r.Intn(1000000000)
			switch r.Intn(4) {
			case 0:
				mo, d, h, mi = 12, 31, 23, 59
			case 1:
				mo, d, h, mi = 1, 1, 0, 0
			case 2:
				mo, d = 2, 28
				y = []int{2019, 2020, 1900, 2000, 2100}[r.Intn(5)]
			}
			switch r.Intn(5) {
			case 0:
				ns = r.Intn(1000) * 1000000
			case 1:
				ns = []int{0, 1, 999999, 1000000, 999999999, 999000000, 10000000, 9000000, 99000000}[r.Intn(9)]
			}
			emit("ts.print", J{"y": y, "mo": mo, "d": d, "h": h, "mi": mi, "s": s, "ns": ns, "off": off})
		}
	}
}

func uuidText(r *rand.Rand) string {
	const hex = "0123456789abcdefABCDEF"
	b := make([]byte, 36)
	for i := range b {
		b[i] = hex[r.Intn(len(hex))]
	}
	b[8], b[13], b[18], b[23] = '-', '-', '-', '-'
	return string(b)
}

func genUUIDs(r *rand.Rand, n int, emit func(string, J)) {
	for i := 0; i < n; i++ {
		t := uuidText(r)
		switch r.Intn(6) {
		case 0:
		case 1, 2:
			t = mutate(r, t)
		case 3: // one character, anywhere
			b := []byte(t)
			b[r.Intn(36)] = alphabet[r.Intn(len(alphabet))]
			t = string(b)
		case 4:
			t = pick(r, t[:35], t+"0", t[1:], "{"+t[2:], "", "-", strings.ReplaceAll(t, "-", ""), strings.Replace(t, "-", "0", 1), t[:18]+t[19:]+"-", strings.Repeat("-", 36), strings.Repeat("0", 36), t[9:]+t[:9], "urn:uuid:"+t)
		case 5:
			if r.Intn(2) == 0 {
				emit("uuid.rawjson", J{"t": pick(r, "1", "{}", "[]", "true", `""`, `["`+t+`"]`)})
				continue
			}
		}
		emit(pick(r, "uuid.parse", "uuid.json"), J{"t": t})
	}
}

func genUnitValues(r *rand.Rand, n int, emit func(string, J)) {
	for i := 0; i < n; i++ {
		u := pick(r, "USD", "x", "m/s", "sq ft", `say "hi"`, `a\b`, "<b>&", "C", "'", "EUR ", " EUR", "1", "kg m s", "%d", "%")
		v := decimalText(r)
		t := v + " " + u
		switch r.Intn(8) {
		case 0:
			t = mutate(r, t)
		case 1:
			t = pick(r, v, v+" ", " "+u, u, v+u, "", " ", v+"  "+u, u+" "+v, v+"\t"+u, "Inf USD", "abc USD")
		case 2:
			emit("uv.new", J{"t": pick(r, "", "-") + digits(r, 1+r.Intn(7)) + "." + digits(r, 1+r.Intn(7)), "u": u})
			continue
		case 3:
			if r.Intn(4) == 0 {
				emit("uv.rawjson", J{"t": pick(r, "1", "{}", "[]", "true", `""`, `["10 USD"]`)})
				continue
			}
		}
		emit(pick(r, "uv.parse", "uv.json"), J{"t": t})
	}
}
