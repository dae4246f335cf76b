// Command alone-root signs and accepts tokens with every built-in method in a
// program that links the root package only.
package main

import (
	"context"
	"fmt"
	"os"

	"github.com/powerpuffpenguin/sessionid"
	"github.com/powerpuffpenguin/sessionid/cryptoer"
)

func main() {
	ctx := context.Background()
	for _, n := range []string{"HMD5", "HS1", "HS256", "HS384", "HS512"} {
		m := sessionid.NewManager(sessionid.WithMethod(cryptoer.GetSigningMethod(n)), sessionid.WithKey([]byte("key")), sessionid.WithProvider(sessionid.NewProvider()))
		s, r, e := m.Create(ctx, "user", sessionid.Pair{Key: "k", Value: "v"})
		if e == nil {
			_, e = m.Get(ctx, s.Token())
		}
		if e == nil {
			_, _, e = m.Refresh(ctx, s.Token(), r)
		}
		if e != nil {
			fmt.Println(n, e)
			os.Exit(1)
		}
		fmt.Println(n, "ok")
	}
}
