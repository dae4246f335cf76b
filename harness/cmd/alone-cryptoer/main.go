// Command alone-cryptoer uses every built-in signing method in a program that
// links nothing that could provide a hash by accident.
package main

import (
	"os"

	"github.com/powerpuffpenguin/sessionid/cryptoer"
)

// what the methods give for the text "text" under the key "key"
var want = map[string]string{
	"HMD5":  "0Mphd8Ycl1_S-MB9jGUoxg",
	"HS1":   "Np4pWetJRQM4shJ0j3fY3tdIR7s",
	"HS256": "avqQRqlXnK0UOjhMG1ZLmiUNJ9b2pj-fIL86dZTJ4sY",
	"HS384": "V8EyPvlbU7xzcddwzTFBnRBMtbzbXKY3I2QkbxiEGAZX1UKYYKxyzhn5EJ04rVS2",
	"HS512": "tYUxKs3TjsE_E7tMujWnVHPzK2rkoDA5JoFb1D16JjFRaysDHzTYntqFPpSNUFfeVKiAwWaXJC2-ahrZlLxOXQ",
}

func main() {
	bad := false
	for _, n := range []string{"HMD5", "HS1", "HS256", "HS384", "HS512"} {
		m := cryptoer.GetSigningMethod(n)
		if m == nil {
			println(n, "not found")
			bad = true
			continue
		}
		s, e := m.Sign("text", []byte("key"))
		if e != nil || s != want[n] {
			println(n, "sign:", s)
			if e != nil {
				println(e.Error())
			}
			bad = true
			continue
		}
		if e := m.Verify("text", s, []byte("key")); e != nil {
			println(n, "verify:", e.Error())
			bad = true
		}
		println(n, "ok")
	}
	direct := map[string]cryptoer.SigningMethod{"HMD5": cryptoer.SigningMethodHMD5, "HS1": cryptoer.SigningMethodHS1, "HS256": cryptoer.SigningMethodHS256, "HS384": cryptoer.SigningMethodHS384, "HS512": cryptoer.SigningMethodHS512}
	for n, m := range direct {
		if s, e := m.Sign("text", []byte("key")); e != nil || s != want[n] {
			println(n, "direct sign:", s)
			bad = true
		}
	}
	if bad {
		os.Exit(1)
	}
}
