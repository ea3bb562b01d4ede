package main

import (
	"flag"
	"fmt"
	"net"
	"os"

	"github.com/pojol/braid/zzmc/netconf"
)

func freePort() int {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

// Real time is involved (deadlines of some hundred milliseconds), so a mismatch counts
// only if it shows three times.
func grpcConform() (n int64, bad []string) {
	for i := 0; i < 3; i++ {
		n, bad = 0, nil
		got := netconf.Outcomes(freePort())
		for j, w := range netconf.Want {
			if j >= len(got) || got[j] != w {
				bad = append(bad, fmt.Sprintf("grpc-go gives %q, the model %q", append(got, "nothing")[min(j, len(got))], w))
			}
			n++
		}
		if len(bad) == 0 {
			break
		}
	}
	return n, bad
}

func main() {
	what := flag.String("what", "redis", "redis, grpc or outcomes")
	max := flag.Int("max", 3, "mismatches to show")
	less := flag.Int("less", 0, "commands fewer per trace")
	flag.Parse()
	var n int64
	var bad []string
	switch *what {
	case "redis":
		n, bad = redisConform(*max, *less)
	case "grpc":
		n, bad = grpcConform()
	case "outcomes":
		for _, o := range netconf.Outcomes(freePort()) {
			fmt.Println(o)
		}
		return
	}
	for _, b := range bad {
		fmt.Println("MISMATCH", b)
	}
	fmt.Println("traces", n)
	if len(bad) != 0 {
		os.Exit(1)
	}
}
