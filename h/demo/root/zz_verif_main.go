package main

import hx "github.com/iand/starbow/internal/zz/hx"

func main() { hx.Main(verifOrigMain) }
