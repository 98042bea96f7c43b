package main

import "vsched/mc"

func main() { mc.Main() }
