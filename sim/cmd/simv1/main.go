// Command simv1 is the simulated world around the v1 (goroutine per
// connection) server. cmd/server refuses to start it, so the harness does what
// cmd/server does for v2: start, wait for a signal, stop, wait.
package main

import (
	"os"
	"sync"
	"syscall"

	v1 "github.com/yusank/godis/server/v1"

	"simgodis/harness"
	signal "simgodis/simsignal"
)

func main() {
	harness.Run(func() {
		srv := v1.NewServer()
		sig := make(chan os.Signal, 1)
		var wg sync.WaitGroup
		signal.Notify(sig, syscall.SIGTERM, syscall.SIGINT)
		errs := make(chan error, 1)
		wg.Add(2)
		go func() {
			defer wg.Done()
			if err := srv.Start("tcp://127.0.0.1:6400"); err != nil {
				errs <- err
			}
		}()
		go func() {
			defer wg.Done()
			select {
			case <-sig:
			case <-errs:
			}
			srv.Stop()
		}()
		wg.Wait()
	})
}
