package dexfund

import "github.com/golang/protobuf/proto"

func marshal(m proto.Message) []byte {
	b, err := proto.Marshal(m)
	return pack(err, b)
}
