package run

import "zz.local/zz/corpus"

type Named = corpus.Named

var (
	Header = corpus.Header
	Data   = corpus.Data
	N      = corpus.N
	W      = corpus.W
	Tags   = corpus.Tags
	Corpus = corpus.Corpus
	ByName = corpus.ByName
	Multi  = corpus.Multi
)
