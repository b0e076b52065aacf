"""Contracts of functions of the code that are verified by their own property and assumed by others."""
from weatherlink import models


def crc_contract(eng, args, kwargs):
    """calculate_weatherlink_crc is a function of the bytes, 0..65535, and a message followed by two bytes has checksum
    zero exactly when they are its own checksum, high byte first (what it computes is the contract of C02)."""
    import z3
    from pyver.models import seq_shape
    from pyver.ops import int_t
    from pyver.values import SInt, SBytes, SSeq, Unsupported
    data = eng.resolve(args[0] if args else kwargs['data_bytes'])
    eng.contract_uses['calculate_weatherlink_crc'] = eng.contract_uses.get('calculate_weatherlink_crc', 0) + 1
    if isinstance(data, bytes):
        return models.calculate_weatherlink_crc(data)

    def items_term(items):
        items = tuple(items)
        if all(isinstance(x, int) for x in items):
            return z3.IntVal(models.calculate_weatherlink_crc(bytes(items)))
        f = z3.Function('crc!%d' % len(items), *([z3.IntSort()] * (len(items) + 1)))
        return f(*[int_t(x) for x in items])

    def seq_term(name, start, length, tail):
        f = z3.Function('crc!%s!%d' % (name, len(tail)), *([z3.IntSort()] * (len(tail) + 3)))
        return f(start, length, *[int_t(x) for x in tail])
    if isinstance(data, SSeq):
        name, start, length, tail = seq_shape(data)
        t = seq_term(name, start, length, tail)
        last = tail[-2:] if len(tail) >= 2 else None
        head = seq_term(name, start, length, tail[:-2]) if last else None
    elif isinstance(data, SBytes):
        t = items_term(data.items)
        last = data.items[-2:] if len(data.items) >= 2 else None
        head = items_term(data.items[:-2]) if last else None
    else:
        raise Unsupported('CRC of %r' % (data,))
    eng.keep.append(t)
    eng.axiom(('crc', t.get_id()), lambda: [z3.And(t >= 0, t <= 65535)])
    if head is not None:
        own = z3.And(head == int_t(last[0]) * 256 + int_t(last[1]), head >= 0, head <= 65535) if True else None
        eng.keep.append(head)
        eng.axiom(('crc0', t.get_id()), lambda: [(t == 0) == own, z3.And(head >= 0, head <= 65535)])
    return SInt(t)


def formula(name, arity, optional):
    """A numeric function of numeric arguments; if `optional`, it may give nothing."""
    def contract(eng, args, kwargs):
        import z3
        from pyver.ops import real_t
        from pyver.values import SDec, Union, Unsupported
        if len(args) != arity or kwargs:
            raise Unsupported('call of %s' % name)
        eng.contract_uses[name] = eng.contract_uses.get(name, 0) + 1
        rs = [z3.RealSort()] * arity
        ts = [z3.simplify(real_t(eng.resolve(a))) for a in args]
        v = SDec(z3.Function(name, *(rs + [z3.RealSort()]))(*ts))
        if not optional:
            return v
        none = z3.Function(name + '!none', *(rs + [z3.BoolSort()]))(*ts)
        return Union([(none, None), (z3.Not(none), v)])
    return contract
