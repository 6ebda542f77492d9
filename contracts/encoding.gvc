# package encoding: encoder

# what has been given to the encoder: complete chunks on the writer, rest in the buffer
def stream(e) = unframe(str(e.w)) + str(e.buf)

func encoding.(Encoder).Write(e, p) (n, err)
  props C01 C02 C03
  panics [C06]
  requires "buffer": e.buf != nil
  requires "writer": is(e.w, "*bytes.Buffer") && as(e.w, "*bytes.Buffer") != e.buf && as(e.w, "*bytes.Buffer") != nil
  requires "framed": wf(str(e.w))
  requires "chunk size": e.chunkSize > 0
  modifies str(e.buf), str(e.w)
  ensures "no error": err == nil
  ensures "framed": wf(str(e.w))
  ensures "appended": stream(e) == old(stream(e)) + bytes(p)

func encoding.(Encoder).encode(e, v) (err)
  props C01 C02 C03 C06
  panics [C06]
  requires "buffer": e.buf != nil
  requires "writer": is(e.w, "*bytes.Buffer") && as(e.w, "*bytes.Buffer") != e.buf && as(e.w, "*bytes.Buffer") != nil
  requires "framed": wf(str(e.w))
  requires "chunk size": e.chunkSize > 0
  modifies str(e.buf), str(e.w)
  split err == nil
  ensures [C03] "framed": wf(str(e.w))
  ensures [C06] "accepts only encodable values": imp(err == nil, enc(v))
  ensures [C06,C01,C02] "refuses only unencodable values": imp(err != nil, !enc(v))
  ensures [C01,C02] "canonical bytes": imp(err == nil, stream(e) == old(stream(e)) + pack(v))

# s is one complete Bolt message whose chunks contain m
def message(s, m) = len(s) >= 2 && wf(sub(s, 0, len(s)-2)) && sub(s, len(s)-2, len(s)) == "\x00\x00" && unframe(sub(s, 0, len(s)-2)) == m

func encoding.NewEncoder(w, chunkSize) (e)
  props C03
  panics [C06]
  requires "writer": w != nil
  ensures "empty buffer": e.buf != nil && str(e.buf) == ""
  fresh e.buf
  ensures "own buffer": imp(is(w, "*bytes.Buffer"), as(w, "*bytes.Buffer") != e.buf)
  ensures "writer": e.w == w
  ensures "no zero chunks": e.chunkSize > 0
  ensures "chunk size": imp(chunkSize > 0, e.chunkSize == chunkSize)

func encoding.(Encoder).flush(e) (err)
  props C01 C02 C03
  panics [C06]
  requires "buffer": e.buf != nil
  requires "writer": is(e.w, "*bytes.Buffer") && as(e.w, "*bytes.Buffer") != e.buf && as(e.w, "*bytes.Buffer") != nil
  requires "framed": wf(str(e.w))
  modifies str(e.buf), str(e.w)
  ensures "no error": err == nil
  ensures "one message": message(str(e.w), old(stream(e)))
  ensures "buffer empty": str(e.buf) == ""

func encoding.(Encoder).Encode(e, v) (err)
  props C01 C02 C03 C06
  panics [C06]
  requires "buffer": e.buf != nil && str(e.buf) == ""
  requires "writer": is(e.w, "other") || is(e.w, "*bytes.Buffer") && as(e.w, "*bytes.Buffer") != e.buf && as(e.w, "*bytes.Buffer") != nil
  requires "chunk size": e.chunkSize > 0
  modifies str(e.buf), str(e.w)
  split err == nil
  ensures [C06] "accepts only encodable values": imp(err == nil, enc(v))
  ensures [C06] "nothing sent for a refused value": imp(!enc(v), str(e.w) == old(str(e.w)))
  ensures [C06] "encoder stays usable": str(e.buf) == ""
  ensures [C01,C02,C06] "refuses only unencodable values": imp(err != nil && is(e.w, "*bytes.Buffer"), !enc(v))
  ensures [C01,C02,C03] "appends one message": imp(err == nil, len(str(e.w)) >= len(old(str(e.w))) && sub(str(e.w), 0, len(old(str(e.w)))) == old(str(e.w)) && message(sub(str(e.w), len(old(str(e.w))), len(str(e.w))), pack(v)))

func encoding.Marshal(v) (b, err)
  props C01 C02 C03 C06
  panics [C06]
  split err == nil
  ensures [C06] "accepts only encodable values": imp(err == nil, enc(v))
  ensures [C01,C02,C06] "accepts all encodable values": imp(err != nil, !enc(v))
  ensures [C01,C02,C03] "one message": imp(err == nil, message(bytes(b), pack(v)))
