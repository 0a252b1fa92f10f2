package main

import (
	"context"
	"net"
	"os"
)

// The server under test resolves names with the DNS of the harness.
func init() {
	if a := os.Getenv("VERIF_DNS"); a != "" {
		net.DefaultResolver = &net.Resolver{PreferGo: true, Dial: func(ctx context.Context, _, _ string) (net.Conn, error) {
			var d net.Dialer
			return d.DialContext(ctx, "udp", a)
		}}
	}
}
