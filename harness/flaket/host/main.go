// Command host runs the ID generator on a host of its own: in fresh user and
// network namespaces whose only interface has the addresses given.
package main

import (
	"fmt"
	"os"
	"os/exec"
	"syscall"

	"github.com/effective-security/xdb/pkg/flake"
)

func main() {
	if os.Args[1] != "draw" {
		_ = exec.Command("ip", "link", "set", "lo", "up").Run()
		for _, a := range os.Args[1:] {
			if a == "none" {
				continue
			}
			if out, err := exec.Command("ip", "addr", "add", a, "dev", "lo").CombinedOutput(); err != nil {
				fmt.Println("refused:", a, err, string(out))
				os.Exit(3)
			}
		}
		// the package makes its generator when the program starts
		err := syscall.Exec("/proc/self/exe", []string{"host", "draw"}, []string{})
		fmt.Println("refused:", err)
		os.Exit(3)
	}
	own := flake.NewIDGenerator(flake.Settings{})
	fmt.Println(flake.FirstID(flake.DefaultIDGenerator), flake.DefaultIDGenerator.NextID(), flake.FirstID(own), own.NextID())
}
