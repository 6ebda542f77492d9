# package errors

# the error at the bottom of a chain of errors; causeE is defined by
# recursion over the field wrapped, which never changes once set
def cause(x) = ite(is(x, "*errors.Error"), causeE(x), x)
def chained(e) = causeE(mk("*errors.Error", e)) == ite(e.wrapped == nil, mk("*errors.Error", e), cause(e.wrapped))

func errors.New(msg, args) (result)
  props C09 C10
  panics [C09,C10]
  alloc result
  sets result.wrapped := nil
  lemma chained(result)
  ensures "is its own cause": causeE(mk("*errors.Error", result)) == mk("*errors.Error", result)

func errors.Wrap(err, msg, args) (result)
  props C09 C10
  panics [C09,C10]
  alloc result
  sets result.wrapped := err
  lemma chained(result)
  ensures "keeps the cause": causeE(mk("*errors.Error", result)) == ite(err == nil, mk("*errors.Error", result), cause(err))

func errors.(Error).Inner(e) (inner)
  props C09 C10
  panics [C09,C10]
  requires "error": e != nil
  ensures "the wrapped error": inner == e.wrapped

func errors.(Error).InnerMost(e) (inner)
  props C09 C10
  panics [C09,C10]
  requires "error": e != nil
  assume "no typed nil inside a chain of errors": imp(is(e.wrapped, "*errors.Error"), as(e.wrapped, "*errors.Error") != nil)
  lemma chained(e)
  ensures "the cause": inner == causeE(mk("*errors.Error", e))
