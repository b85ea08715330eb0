package main

func main() { cli() }
