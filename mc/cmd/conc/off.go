//go:build !sched

// Command conc decides the property about concurrent requests.
package main

func main() { panic("built without the scheduler") }
