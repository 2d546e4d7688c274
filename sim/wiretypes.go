package main

import (
	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/wire"
)

type wireUpdate = wire.UpdateResponse

type labelVal = transparency.LabelValue
