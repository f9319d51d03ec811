package main

type Golden struct{}

func (g *Golden) check(x *X) {}
