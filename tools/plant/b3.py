from plant import *
bug('p20-second-instance','P20','the address is in use when the server starts',
 'an address in use is taken for a sign that the server already runs and nobody stops the process: it lingers without a listener',
 [('cmd/server/main.go','''			log.Println("service got err: ", err)
			errChan <- err
''','''			log.Println("service got err: ", err)
			if !errors.Is(err, syscall.EADDRINUSE) {
				errChan <- err
			}
''')], '''from godis import *
with Tmp() as d:
    exe = build(d)
    l = socket.socket(); l.bind(('127.0.0.1', 0)); l.listen()
    p = subprocess.Popen([exe, '-addr', 'tcp://127.0.0.1:%d' % l.getsockname()[1]], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env())
    try:
        p.wait(20)
    except subprocess.TimeoutExpired:
        p.kill(); p.wait()
        print('FAIL the process does not end although it can not listen'); sys.exit(1)
''')
bug('p19-log-alias','P19','the debug build and a reply longer than the log limit',
 'shortening the reply for the debug log writes into the reply itself: clients of the debug build get corrupted long replies',
 [('event/handler.go','''		log.Println("rsp:", debug.Escape(string(rsp.Encode())))
	}

	return rsp.Encode()
''','''		log.Println("rsp:", debug.Escape(string(debug.Shorten(out))))
	}

	return out
'''),('event/handler.go','''	if debug.DEBUG {
		log.Println("rsp:"''','''	out := rsp.Encode()
	if debug.DEBUG {
		log.Println("rsp:"'''),('debug/strings.go','''func Escape(''','''// Shorten long text for the log.
func Shorten(b []byte) []byte {
	const limit = 512
	if len(b) <= limit {
		return b
	}

	return append(b[:limit], "..."...)
}

func Escape(''')],
 '''from godis import *
with Tmp() as d:
    with Server(build(d, '-tags', 'debug')) as s:
        c = s.client()
        v = ''.join(chr(97 + i % 26) for i in range(2000))
        check(c('SET', 'long', v), 'OK', 'SET')
        check(c('GET', 'long'), v, 'GET of a long value')
        check(c('LRANGE', 'list1', 0, -1), list('123456'), 'prepared list')
''')
bug('p19-preload-late','P19','a client that is served while the data is still being prepared (a slow start)',
 'the prepared data is loaded after the server has started, in parallel to the first requests: early clients see missing keys and the commands race',
 [('cmd/server/main.go','''	if debug.DEBUG {
		insertPreData()
	}

''',''),('cmd/server/main.go','''	wg.Add(1)
	go func() {
		defer wg.Done()
		select {''','''	if debug.DEBUG {
		insertPreData()
	}

	wg.Add(1)
	go func() {
		defer wg.Done()
		select {''')],
 None, sh='''#!/bin/bash
# cwd: the repository. Exits 0 when the property holds: the prepared data is
# complete before the first client is served, however slow loading it is.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=${HOME:-/root} GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
tmp=$(mktemp -d /tmp/godis-demo-XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/redis/zz_slow.go":"%s/slow.go.txt"}}' "$PWD" "$here" > "$tmp/o.json"
go build -tags debug -overlay "$tmp/o.json" -o "$tmp/godis" ./cmd/server || exit 2
exec python3 "$here/early.py" "$tmp/godis"
''', files={'slow.go.txt':'''package redis

import (
	"time"

	"github.com/yusank/godis/protocol"
)

func init() {
	f := implementedCommands["zadd"]
	implementedCommands["zadd"] = func(c *Command) (*protocol.Response, error) {
		time.Sleep(2 * time.Second)
		return f(c)
	}
}
''','early.py':'''from godis import *
with Server(sys.argv[1]) as s:
    c = s.client()
    check(c('EXISTS', 'zset'), 1, 'the first client looks for prepared data')
''','godis.py':open('/tmp/bugs/godis.py').read()})
