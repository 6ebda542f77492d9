# package encoding: decoder

func encoding.NewDecoder(r) (d)
  props C04
  panics [C05]
  fresh d.buf
  ensures "reader": d.r == r

# the first L bytes of s are one complete message
def complete(s, L) = 2 <= L && L <= len(s) && wf(sub(s, 0, L-2)) && sub(s, L-2, L) == "\x00\x00"

func encoding.(Decoder).read(d) (output, err)
  props C04
  panics [C05]
  ghost L Int := len(input(d.r))
  requires "reader": when(is(d.r, "other"), true, is(d.r, "*bytes.Buffer") && as(d.r, "*bytes.Buffer") != nil)
  modifies input(d.r)
  fresh output
  split err == nil
  lemma framing(old(input(d.r)), L)
  ensures "reads forwards": suffix(input(d.r), old(input(d.r)))
  ensures "reads a message that is there": imp(complete(old(input(d.r)), L) && !(err != nil && failed(d.r)), err == nil && len(input(d.r)) == len(old(input(d.r))) - L)
  ensures "one message": imp(err == nil, output != nil && message(sub(old(input(d.r)), 0, len(old(input(d.r))) - len(input(d.r))), str(output)))
  ensures "fails only when the stream does": imp(err != nil, ended(d.r))

# the bytes are the canonical form of a value x: it is returned (as the documented types)
func encoding.(Decoder).decode#rt(d, buffer) (v, err)
  props C02
  panics [C05]
  ghost x Any, rest Str
  match x, rest := unpack(str(buffer))
  requires "buffer": buffer != nil
  requires "content": str(buffer) == pack(x) + rest
  requires "decodable": dec(x)
  cases x
  modifies str(buffer)
  fresh v
  ensures "no error": err == nil
  ensures "same value": same(v, x)
  ensures "the rest is left": str(buffer) == rest

# any bytes at all
func encoding.(Decoder).decode#any(d, buffer) (v, err)
  props C05
  panics [C05]
  requires "buffer": buffer != nil
  modifies str(buffer)
  fresh v
  decreases len(str(buffer))
  split err == nil
  ensures "consumes what it decodes": suffix(str(buffer), old(str(buffer))) && imp(err == nil, len(str(buffer)) < len(old(str(buffer))))

func encoding.(Decoder).Decode#any(d) (v, err)
  props C04 C05
  panics [C05]
  requires "reader": when(is(d.r, "other"), true, is(d.r, "*bytes.Buffer") && as(d.r, "*bytes.Buffer") != nil)
  modifies input(d.r)
  use encoding.(Decoder).decode#any
  fresh v
  split err == nil
  ensures [C04] "reads forwards": suffix(input(d.r), old(input(d.r)))
  ensures [C04,C05] "consumes one message": imp(err == nil, complete(old(input(d.r)), len(old(input(d.r))) - len(input(d.r))))

func encoding.Unmarshal#any(b) (v, err)
  props C05
  panics [C05]
  use encoding.(Decoder).Decode#any
  fresh v
  split err == nil
  also encoding.Unmarshal#rt
  ensures "a message": imp(err == nil, len(bytes(b)) >= 2)

# the message holds the canonical form of x, in whatever chunks
func encoding.(Decoder).Decode#rt(d) (v, err)
  props C02 C04
  panics [C05]
  use encoding.(Decoder).decode#rt
  ghost x Any
  ghost L Int := len(input(d.r))
  requires "reader": when(is(d.r, "other"), true, is(d.r, "*bytes.Buffer") && as(d.r, "*bytes.Buffer") != nil)
  requires "message": complete(input(d.r), L) && unframe(sub(input(d.r), 0, L-2)) == pack(x)
  requires "decodable": dec(x)
  modifies input(d.r)
  fresh v
  split err == nil
  ensures "fails only when the stream does": imp(err != nil, failed(d.r))
  ensures "same value": imp(err == nil, same(v, x))
  ensures [C04] "consumes the message": imp(err == nil, len(input(d.r)) == len(old(input(d.r))) - L && suffix(input(d.r), old(input(d.r))))

func encoding.Unmarshal#rt(b) (v, err)
  props C02 C04
  panics [C05]
  use encoding.(Decoder).Decode#rt
  ghost x Any
  requires "message": message(bytes(b), pack(x))
  requires "decodable": dec(x)
  fresh v
  ensures "no error": err == nil
  ensures "same value": same(v, x)
