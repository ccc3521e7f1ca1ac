package main

// levelOf is the verification level recorded in the evidence.
func levelOf(id string) string { return "other" }
