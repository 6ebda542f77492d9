# planted bugs of the connection properties: each demo holds a copy of the server in memory
import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mkseed
fake=open('/verif/battery/bolt/zz_verif_fake_test.go').read()
def demo(body, *imps):
    s=fake.replace('import (','import (\n\t"testing"\n'+''.join('\t%s\n'%i for i in imps),1)
    return s+'''
func pair() (*boltConn, *vfConn) {
	f := newVfConn()
	c := createBoltConn("bolt://fake")
	c.conn = f
	return c, f
}

func rec(v ...interface{}) []interface{} { return v }

func (s *vfServer) on(q string, a *vfAns) {
	a.q = q
	if a.cols == nil {
		a.cols = []interface{}{"a"}
	}
	s.answers[q] = a
}

func meta(k string, v interface{}) map[string]interface{} { return map[string]interface{}{k: v} }

'''+body.lstrip('\n')
ERR='bolterrors "github.com/johnnadratowski/golang-neo4j-bolt-driver/errors"'
MSG='"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/messages"'
def seed(ID,prop,edits,body,imps,needs,breaks):
    mkseed(ID,prop,'',edits,demo(body,*imps),needs,breaks)

