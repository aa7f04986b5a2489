package main

import "fmt"

func seqCommand() {
	for k, v := range sequential() {
		fmt.Println("==", k)
		fmt.Println(string(v))
	}
}
