package main

import (
	"bytes"
	"encoding/json"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"time"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/httptrace"

	. "verif/harness/kit"
)

// The messages written for the examples, read back as HTTP.

func init() {
	Ops["http.trace"] = func(in J) J {
		one := func() (string, error) {
			model, err := sadl.NewModel(ToSchemaMode(Sub(in, "schema"), Bool(in, "plain")))
			if err != nil {
				return "", err
			}
			text := CaptureStdout(func() { err = httptrace.Export(model, sadl.NewData()) })
			return text, err
		}
		text, err := one()
		if err != nil {
			return J{"st": "err", "msg": Trim(err.Error())}
		}
		again, err := one()
		undated := func(s string) string {
			var l []string
			for _, x := range strings.Split(s, "\n") {
				if !strings.HasPrefix(x, "Date: ") {
					l = append(l, x)
				}
			}
			return strings.Join(l, "\n")
		}
		return J{"st": "ok", "same": err == nil && undated(text) == undated(again), "entries": traceEntries(text)}
	}
}

func traceEntries(text string) []interface{} {
	entries := []interface{}{}
	var entry J
	var block []string
	kind := ""
	flush := func() {
		if entry != nil && kind == "req" {
			entry["req"] = traceRequest(block)
		} else if entry != nil && kind == "resp" {
			entry["resp"] = append(entry["resp"].([]interface{}), traceResponse(block))
		}
		block, kind = nil, ""
	}
	for _, line := range strings.Split(text, "\n") {
		if !strings.HasPrefix(line, "#") {
			block = append(block, line)
			continue
		}
		flush()
		t := strings.TrimSpace(line[1:])
		if t == "Request:" {
			kind = "req"
		} else if t == "Response:" {
			kind = "resp"
		} else if n := strings.LastIndex(t, "(action="); n >= 0 && strings.HasSuffix(t, ")") {
			entry = J{"name": strings.TrimSpace(t[:n]), "action": t[n+8 : len(t)-1], "req": J{}, "resp": []interface{}{}}
			entries = append(entries, entry)
		}
	}
	flush()
	return entries
}

func traceHead(block []string) (string, []interface{}, string) {
	for len(block) > 0 && strings.TrimSpace(block[0]) == "" {
		block = block[1:]
	}
	headers := []interface{}{}
	if len(block) == 0 {
		return "", headers, ""
	}
	first, i := block[0], 1
	for ; i < len(block) && block[i] != ""; i++ {
		kv := strings.SplitN(block[i], ":", 2)
		if len(kv) != 2 {
			kv = append(kv, "?")
		}
		headers = append(headers, []interface{}{strings.ToLower(kv[0]), strings.TrimSpace(kv[1])})
	}
	if i < len(block) {
		i++
	}
	return first, headers, strings.Join(block[i:], "\n")
}

func traceBody(s string) []interface{} {
	if strings.TrimSpace(s) == "" {
		return []interface{}{}
	}
	d := json.NewDecoder(bytes.NewReader([]byte(s)))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil || d.More() {
		return []interface{}{J{"k": "raw", "s": Trim(s)}}
	}
	return []interface{}{AbsValue(v)}
}

func traceRequest(block []string) J {
	first, headers, body := traceHead(block)
	parts := strings.Split(first, " ")
	for len(parts) < 3 {
		parts = append(parts, "?")
	}
	segs, query := []interface{}{}, []interface{}{}
	target := strings.Join(parts[1:len(parts)-1], " ")
	path, q := target, ""
	if n := strings.Index(target, "?"); n >= 0 {
		path, q = target[:n], target[n+1:]
		for _, item := range strings.Split(q, "&") {
			kv := append(strings.SplitN(item, "=", 2), "")
			v, err := url.QueryUnescape(kv[1])
			if err != nil {
				v = "bad " + kv[1]
			}
			query = append(query, []interface{}{kv[0], v})
		}
	}
	if u, err := url.ParseRequestURI(target); err != nil || u.Fragment != "" || strings.Contains(target, " ") || strings.Contains(target, "#") {
		path = "/bad target/" + path
	}
	for _, s := range strings.Split(strings.TrimPrefix(path, "/"), "/") {
		v, err := url.PathUnescape(s)
		if err != nil {
			v = "bad " + s
		}
		segs = append(segs, v)
	}
	return J{"method": parts[0], "segs": segs, "query": query, "proto": parts[len(parts)-1], "headers": headers, "body": traceBody(body)}
}

func traceResponse(block []string) J {
	first, headers, body := traceHead(block)
	parts := append(strings.SplitN(first, " ", 3), "?", "?", "?")
	length, date := false, false
	for _, h := range headers {
		kv := h.([]interface{})
		switch kv[0] {
		case "content-length": // that many bytes are the body, and nothing comes after
			n, err := strconv.Atoi(kv[1].(string))
			length = err == nil && n >= 0 && n <= len(body) && strings.TrimSpace(body[n:]) == "" && !(n == 0 && strings.TrimSpace(body) != "")
		case "date":
			t, err := time.Parse(http.TimeFormat, kv[1].(string))
			if d := time.Since(t); err == nil && d > -5*time.Minute && d < 5*time.Minute {
				date = true
			}
		}
	}
	return J{"proto": parts[0], "status": parts[1], "reason": parts[2], "headers": headers, "length": length, "date": date, "body": traceBody(body)}
}
