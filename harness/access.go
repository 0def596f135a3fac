package main

import "github.com/aureleoules/btc"

func init() { curveHook = btc.VerifCurve }
