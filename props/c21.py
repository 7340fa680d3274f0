"""The wiggle-number file."""


def funcs(h):
    m = "wiggle_query_language.graph.state.wiggle_number"
    return h.imp(m, "get_current_wiggle_number"), h.imp(m, "update_wiggle_number")


def round_trip(h):
    """What was stored last is what is read back, whatever the file held before."""
    get, update = funcs(h)
    f = h.path("wn.txt")
    before = h.choice("before", ["empty", "number", "text"])
    if before == "empty":
        h.write(f, "")
    elif before == "number":
        h.write(f, h.decimal(h.int("old")))
    elif before == "text":
        h.write(f, h.text("junk", h.choice("junk length", [1, 2, 5, 12])))
    n = h.int("n", h.choice("at least", [None, 10 ** 9, 2 ** 53 + 1, 10 ** 30]))
    o = h.attempt(update, f, n)
    h.check(o.ok, f"storing a wiggle number failed: {o.error}")
    h.check(h.same(o.value, n), "update did not return the number it stored")
    for again in range(h.choice("more", [0, 1, 2])):
        n = h.int(f"n{again}")
        h.check(h.attempt(update, f, n).ok, "storing a wiggle number again failed")
    for _ in range(2):
        o = h.attempt(get, f)
        h.check(o.ok, f"reading the stored wiggle number back failed: {o.error}")
        h.check(h.same(o.value, n), "the wiggle number read back is not the one stored")
    h.observe("n", o.value)
    h.check(h.same(h.tree(h.path()), {"wn.txt": h.decimal(n)}), "the file holds more than the number, or there are other files")
    h.reach("round trip")


def digits(h):
    """Numbers of many digits, every one of them."""
    get, update = funcs(h)
    f = h.path("wn.txt")
    h.write(f, h.choice("before", ["", "0", "9" * 60]))
    k = h.choice("digits", [1, 2, 3, 4, 7, 8, 9, 10, 11, 15, 16, 17, 19, 20, 21, 39, 64, 65, 130, 310, 1025])
    n = int(h.choice("first", "19") + h.choice("others", ["0", "5", "9"]) * (k - 2) + (h.choice("last", "179") if k > 1 else ""))
    o = h.attempt(update, f, n)
    h.check(o.ok, f"storing a wiggle number failed: {o.error}")
    h.check(h.same(h.tree(h.path()), {"wn.txt": str(n)}), "the file holds more than the number, or there are other files")
    o = h.attempt(get, f)
    h.check(o.ok and o.value == n, "the wiggle number read back is not the one stored")
    h.reach("digits")


CASES = [dict(name="digits", fn=digits, bounds="21 lengths of 1 to 1025 digits, 18 combinations of digits, on 3 contents of the file"),
         dict(name="round_trip", fn=round_trip, bounds="any integers, 1 to 3 writes, also only those above 10**9, 2**53 and 10**30, file empty, number or <=12 chars of junk")]
