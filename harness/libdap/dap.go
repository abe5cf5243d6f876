// Package libdap drives the debug adapter through its message streams.
package libdap

import (
	"bytes"
	"encoding/json"
	"io"
	"strings"

	"github.com/dragmz/teal/dbg"
	"github.com/dragmz/teal/zzverif/liblsp"
	"github.com/dragmz/teal/zzverif/v"
)

// Raw runs an adapter on the input and returns what it wrote.
func Raw(in io.Reader) string {
	var out bytes.Buffer
	l, err := dbg.New(in, &out)
	v.Assert(err == nil, "no adapter")
	_, err = l.Run()
	v.Assert(err == nil, "the adapter fails")
	return out.String()
}

// Request is a framed request; args is the rest of the message, beginning with a comma if not empty.
func Request(seq int, command, args string) string {
	return liblsp.Frame(`{"seq":` + v.JInt(seq) + `,"type":"request","command":` + v.JStr(command) + args + `}`)
}

// Launch is a request to launch the program at the path.
func Launch(seq int, path string) string {
	return Request(seq, "launch", `,"arguments":{"program":`+v.JStr(path)+`}`)
}

// Message is what the adapter writes.
type Message struct {
	Seq        int             `json:"seq"`
	Type       string          `json:"type"`
	RequestSeq int             `json:"request_seq"`
	Success    bool            `json:"success"`
	Command    string          `json:"command"`
	Message    string          `json:"message"`
	Event      string          `json:"event"`
	Body       json.RawMessage `json:"body"`
}

// Messages cuts and parses the written bytes: framed messages, responses or events, with increasing numbers.
func Messages(out string) []Message {
	var r []Message
	for _, b := range liblsp.Split(out) {
		var m Message
		liblsp.Parse(b, &m)
		v.Assert(m.Type == "response" || m.Type == "event", "a message is neither a response nor an event")
		if m.Type == "event" {
			v.Assert(m.Event != "", "an event has no name")
		}
		v.Assert(m.Seq > 0, "a message has no number")
		if len(r) > 0 {
			v.Assert(m.Seq > r[len(r)-1].Seq, "the numbers of messages do not increase")
		}
		r = append(r, m)
	}
	return r
}

// Talk runs an adapter on framed messages.
func Talk(in ...string) []Message {
	return Messages(Raw(strings.NewReader(strings.Join(in, ""))))
}

// Responses are the responses among the messages.
func Responses(ms []Message) []Message {
	var r []Message
	for _, m := range ms {
		if m.Type == "response" {
			r = append(r, m)
		}
	}
	return r
}
