"""C05: stream management, inbound count (spec/Sm.tla, rules C05)."""
import p_c04


def run(ck):
    p_c04.run(ck, '{"C05"}')
