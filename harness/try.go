package main

import (
	"bufio"
	"fmt"
	"os"
	"strconv"
)

// tryMain evaluates each line of stdin (Go escapes allowed) and prints the result.
func tryMain() {
	sc := bufio.NewScanner(os.Stdin)
	for sc.Scan() {
		t, err := strconv.Unquote("`" + sc.Text() + "`")
		if u, e := strconv.Unquote("\"" + sc.Text() + "\""); e == nil {
			t = u
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					fmt.Printf("%-40s PANIC %v\n", sc.Text(), r)
				}
			}()
			var s, e = realScore(t)
			err = e
			if err != nil {
				fmt.Printf("%-40s ERR %v\n", sc.Text(), err)
				return
			}
			fmt.Printf("%-40s", sc.Text())
			for _, n := range realNotes(s) {
				fmt.Printf(" [p%d %d @%.6g %.6g/%.6g ch%d]", n.Part, n.Midi, n.Off, n.Aud, n.Dur, n.Ch)
			}
			fmt.Println(" markers", s.Markers)
		}()
	}
}
