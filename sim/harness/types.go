package main

import (
	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"golang.org/x/net/html"
)

type htmlNode = html.Node

// The type of the tag types is not exported.
func pick3[T ~string](block, inline, remove T, s string) T {
	switch s {
	case "block":
		return block
	case "inline":
		return inline
	}
	return remove
}

func setTagType(conv *converter.Converter, tag, s string, prio int) {
	conv.Register.TagType(tag, pick3(converter.TagTypeBlock, converter.TagTypeInline, converter.TagTypeRemove, s), prio)
}
