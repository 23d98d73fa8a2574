SEEDS=[]
def seed(**k): SEEDS.append(k)
PRE='''package main

import (
	"fmt"
%s
	"github.com/mindstand/go-bolt/connection"
)

var _ = fmt.Sprint
'''
V2E='encoding/encoding_v2/encoderV2.go'; V2D='encoding/encoding_v2/decoderV2.go'; V1D='encoding/encoding_v1/decoderV1.go'; V1E='encoding/encoding_v1/encoderV1.go'
CONN='connection/connection.go'; TX='connection/transaction.go'

seed(id='enc-slice-alias', property='C01', ops=[(V2E,'''			newSlice := make([]interface{}, s.Len())
			for i := 0; i < s.Len(); i++ {
				newSlice[i] = s.Index(i).Interface()
			}
			return e.encodeSlice(newSlice)''','''			newSlice := make([]interface{}, 0, s.Len())
			for i := 0; i < s.Len(); i++ {
				if item := s.Index(i); item.Kind() != reflect.Slice || !item.IsNil() {
					newSlice = append(newSlice, item.Interface())
				}
			}
			return e.encodeSlice(newSlice)''')],
 demo=PRE%''+'''
func main() {
	s := Listen(&Server{Version: 4})
	conn, err := connection.CreateBoltConn(s.URL(""))
	Check(err)
	_, _, err = conn.Query("RETURN $x", connection.QueryParams{"x": [][]string{{"a"}, nil, {"b"}}})
	Check(err)
	for _, m := range s.Conns()[0].Requests() {
		if m.Sig == RUN && len(m.Fields[1].(M)["x"].(L)) != 3 {
			Fail("the server got %v", m.Fields[1])
		}
	}
}
''', needs='a typed slice of slices that contains a nil slice', breaks='the nil element disappears from the list the server gets')

seed(id='dec-header-split', property='C04', ops=[(V2D,'''if numRead, err := io.ReadFull(d.r, lengthBytes); numRead != 2 {''','''if numRead, err := d.r.Read(lengthBytes); numRead != 2 {''')],
 demo=PRE%''+'''
func main() {
	s := Listen(&Server{Version: 4, OnOpen: func(c *Conn) { c.Split, c.Chunk = 3, 2 }, Rows: func(string) []L { return []L{{"hello"}} }})
	conn, err := connection.CreateBoltConn(s.URL(""))
	Check(err)
	for i := 0; i < 5; i++ {
		rows, _, err := conn.Query("Q", nil)
		if err != nil || len(rows) != 1 || rows[0][0] != "hello" {
			Fail("%v %v", rows, err)
		}
	}
}
''', needs='a packet boundary between the two bytes of a chunk header', breaks='the answer is not understood')

seed(id='fail-metadata', property='C07', ops=[(V2D,'''	return messages.NewFailureMessage(metadata), nil''','''	return messages.NewFailureMessage(map[string]interface{}{"code": metadata["code"], "message": metadata["message"]}), nil''')],
 demo=PRE%'''"errors"
	"github.com/mindstand/go-bolt/structures/messages"
	berrors "github.com/mindstand/go-bolt/errors"'''+'''
func main() {
	s := Listen(&Server{Version: 4})
	s.On = func(c *Conn, m Struct) bool {
		if m.Sig == RUN {
			c.Failed = true
			c.Send(Struct{0x7f, L{M{"code": "Neo.X", "message": "m", "hint": "try again"}}})
			return true
		}
		return false
	}
	conn, err := connection.CreateBoltConn(s.URL(""))
	Check(err)
	_, _, err = conn.Query("Q", nil)
	var f messages.FailureMessage
	if e, ok := err.(*berrors.Error); ok {
		err = e.InnerMost()
	}
	if !errors.As(err, &f) || f.Metadata["hint"] != "try again" {
		Fail("%v", err)
	}
}
''', needs='a failure with metadata beyond code and message on protocol 2 to 4', breaks='the rest of the metadata of the failure is lost')

seed(id='commit-pull-failure', property='C10', ops=[(TX,'''	var pullSucc interface{}

	if !isCommitType {
		pullSucc, err = t.conn.consume()
		if err != nil {
			return err
		}
	}

	success, ok := runSucc.(messages.SuccessMessage)
	if !ok {
		t.conn.abort()
		return errors.New("Unrecognized response type committing''','''	var pullSucc interface{}

	if !isCommitType {
		pullSucc, err = t.conn.consume()
		if pullSucc == nil {
			return err
		}
	}

	success, ok := runSucc.(messages.SuccessMessage)
	if !ok {
		t.conn.abort()
		return errors.New("Unrecognized response type committing'''),(TX,'''		pull, ok := pullSucc.(messages.SuccessMessage)
		if !ok {
			t.conn.abort()
			return errors.New("Unrecognized response type pulling transaction:  %#v", pullSucc)
		}

		log.Tracef("Got success message pulling transaction: %#v", pull)
	}

	t.conn.endTransaction()
	return err
}

func (t *boltTransaction) Rollback''','''		switch pull := pullSucc.(type) {
		case messages.SuccessMessage, messages.FailureMessage:
			log.Tracef("Got message pulling transaction: %#v", pull)
		default:
			t.conn.abort()
			return errors.New("Unrecognized response type pulling transaction:  %#v", pullSucc)
		}
	}

	t.conn.endTransaction()
	return nil
}

func (t *boltTransaction) Rollback''')],
 demo=PRE%''+'''
func main() {
	for v := 1; v <= 2; v++ {
		s := Listen(&Server{Version: v})
		s.On = func(c *Conn, m Struct) bool {
			if m.Sig == PULL && c.Query == "COMMIT" {
				c.Failure("Neo.TransientError", "could not commit")
				return true
			}
			return false
		}
		conn, err := connection.CreateBoltConn(s.URL(""))
		Check(err)
		tx, err := conn.Begin()
		Check(err)
		_, err = tx.Exec("CREATE ()", nil)
		Check(err)
		if err := tx.Commit(); err == nil {
			Fail("v%d: reported committed although the server failed the commit", v)
		}
	}
}
''', needs='a version 1 or 2 server that accepts COMMIT and fails when its (empty) result is pulled', breaks='a failed commit is reported as committed')

seed(id='version-last-byte', property='C11', ops=[('protocol/util.go','''	} else if bytes.Equal(version, protocol_v4.ProtocolVersionBytes) {''','''	} else if version[len(version)-1] == protocol_v4.ProtocolVersion {''')],
 demo=PRE%''+'''
func main() {
	s := Listen(&Server{Version: 4, Hand: []byte{0, 0, 1, 4}})
	conn, err := connection.CreateBoltConn(s.URL(""))
	if err == nil {
		Fail("opened with version %v", conn.GetProtocolVersionBytes())
	}
	if n := len(s.Conns()[0].Requests()); n != 0 {
		Fail("%d requests were sent", n)
	}
}
''', needs='a server that answers the handshake with a version whose last byte is 4', breaks='a version that was not offered is taken for version 4 and credentials are sent')

seed(id='begin-db-autocommit', property='C12', ops=[('protocol/protocol_v4/bolt.go','''	return messages.NewBeginMessage(messages.BuildTxMetadataWithDatabase(nil, nil, database, accessMode, nil))''','''	return messages.NewBeginMessage(messages.BuildTxMetadataWithDatabase(nil, nil, strings.ToLower(strings.TrimSpace(database)), accessMode, nil))'''),('protocol/protocol_v4/bolt.go','''import (''','''import (
	"strings"''')],
 demo=PRE%''+'''
func main() {
	s := Listen(&Server{Version: 4})
	conn, err := connection.CreateBoltConn(s.URL(""))
	Check(err)
	_, err = conn.BeginWithDatabase("myGraph")
	Check(err)
	for _, m := range s.Conns()[0].Requests() {
		if m.Sig == BEGIN && m.Fields[0].(M)["db"] != "myGraph" {
			Fail("the server got %v", m.Fields)
		}
	}
}
''', needs='a transaction on a version 4 database whose name is not lower case', breaks='the database name is not sent as given')

seed(id='read-deadline', property='C15', ops=[(CONN,'''	if err := r.connection.conn.SetReadDeadline(time.Now().Add(r.connection.timeout)); err != nil {''','''	if len(p) == 0 {
		return 0, nil
	}
	if err := r.connection.conn.SetReadDeadline(time.Now().Add(r.connection.timeout * time.Duration((len(p)+1023)/1024))); err != nil {''')],
 demo='''package main

import (
	"strings"
	"time"

	"github.com/mindstand/go-bolt/connection"
)

func main() {
	s := Listen(&Server{Version: 4})
	s.On = func(c *Conn, m Struct) bool {
		if m.Sig != PULL {
			return false
		}
		b := c.Frame(Pack(Struct{0x71, L{L{strings.Repeat("x", 60000)}}}))
		c.Raw(b[:30])
		time.Sleep(time.Minute)
		return true
	}
	conn, err := connection.CreateBoltConn(strings.Replace(s.URL(""), "=20", "=1", 1))
	Check(err)
	if !Within(15*time.Second, func() { _, _, err = conn.Query("Q", nil) }) {
		Fail("still waiting long after the timeout of one second")
	}
	if err == nil {
		Fail("no error")
	}
}
''', needs='a server that stalls inside a large chunk', breaks='the wait is up to 64 times the configured timeout')
