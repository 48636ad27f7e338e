"""C02: credentials obey the policy of the user (spec/Nego.tla, rules C02)."""
import p_c03


def run(ck):
    p_c03.run(ck, '{"C02"}')
