package main

import "go/token"

type pos_ = token.Pos
