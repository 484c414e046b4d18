F('core/iterators.py')
W('it-attrs','__iter__','''
def __iter__(self, tick=True, start_pos=None):
    owner = self.getOwner()
    attrs = self.getRankAttrs()
    if owner is not None:
        fmt = owner.getFormat()
    elif attrs is not None:
        fmt = attrs.getFormat()
    else:
        fmt = 'C'
    if fmt == 'C':
        return self.iterOccupancy(tick, start_pos=start_pos)
    if fmt == 'U':
        return self.iterActiveShape(tick)
    raise ValueError('Unknown format')
''')
W('it-helper','__iter__','''
def _iter_format(fiber):
    if fiber.getOwner() is not None:
        return fiber.getOwner().getFormat()
    if fiber.getRankAttrs() is not None:
        return fiber.getRankAttrs().getFormat()
    return 'C'

def __iter__(self, tick=True, start_pos=None):
    fmt = _iter_format(self)
    if fmt not in ('C', 'U'):
        raise ValueError('Unknown format')
    if fmt == 'U':
        return self.iterActiveShape(tick=tick)
    return self.iterOccupancy(tick=tick, start_pos=start_pos)
''')
W('rv-idx','__reversed__','''
def __reversed__(self):
    assert not self.isLazy()
    for pos in range(len(self.coords) - 1, -1, -1):
        yield CoordPayload(self.coords[pos], self.payloads[pos])
''')
W('rv-list','__reversed__','''
def __reversed__(self):
    assert not self.isLazy()
    elements = zip(self.coords[::-1], self.payloads[::-1])
    for c, p in elements:
        yield CoordPayload(c, p)
''')
W('is-var','iterShape','''
def iterShape(self, tick=True):
    shape = self.getShape(all_ranks=False)
    return self.iterRangeShape(0, shape, tick=tick)
''')
W('is-kw','iterShapeRef','''
def iterShapeRef(self, tick=True):
    return self.iterRangeShapeRef(start=0, end=self.getShape(all_ranks=False), step=1, tick=tick)
''')
W('ia-unpack','iterActive','''
def iterActive(self, tick=True, start_pos=None):
    start, end = self.getActive()
    return self.iterRange(start, end, tick=tick, start_pos=start_pos)
''')
W('ias-unpack','iterActiveShape','''
def iterActiveShape(self, tick=True):
    active = self.getActive()
    return self.iterRangeShape(active[0], active[1], tick=tick)
''')
R('ir-cont','iterRange',('''
        if end is not None and coord >= end:
            break
        elif start is None or coord >= start:
            if not Payload.isEmpty(payload, default=self.getDefault()):
                if start_pos is not None:
                    self.setSavedPos(i + j, distance=j)
                if is_collecting and tick:
                    Metrics.addUse(rank, coord, i + j)
                yield CoordPayload(coord, payload)
                if is_collecting and tick:
                    Metrics.incIter(rank)
''','''
        if end is not None and coord >= end:
            break
        if start is not None and coord < start:
            continue
        if Payload.isEmpty(payload, default=self.getDefault()):
            continue
        if start_pos is not None:
            self.setSavedPos(i + j, distance=j)
        if is_collecting and tick:
            Metrics.addUse(rank, coord, i + j)
        yield CoordPayload(coord, payload)
        if is_collecting and tick:
            Metrics.incIter(rank)
'''))
R('ir-count','iterRange',('''
    is_collecting, rank = _prep_metrics_inc(self)
    if is_collecting and tick:
        Metrics.registerRank(rank)
''','''
    is_collecting, rank = _prep_metrics_inc(self)
    count = is_collecting and tick
    if count:
        Metrics.registerRank(rank)
'''),('''
                if is_collecting and tick:
                    Metrics.addUse(rank, coord, i + j)
                yield CoordPayload(coord, payload)
                if is_collecting and tick:
                    Metrics.incIter(rank)
    if is_collecting and tick:
        Metrics.endIter(rank)
''','''
                if count:
                    Metrics.addUse(rank, coord, i + j)
                yield CoordPayload(coord, payload)
                if count:
                    Metrics.incIter(rank)
    if count:
        Metrics.endIter(rank)
'''))
R('ir-enum','iterRange',('''
    for j, (coord, payload) in enumerate(iter_):
        if end is not None and coord >= end:
''','''
    for pos, (coord, payload) in enumerate(iter_, i):
        j = pos - i
        if end is not None and coord >= end:
'''))
R('ir-zip','iterRange',('''
        iter_ = ((self.coords[j], self.payloads[j]) for j in range(i, len(self.coords)))
''','''
        positions = range(i, len(self.coords))
        iter_ = ((self.coords[pos], self.payloads[pos]) for pos in positions)
'''))
R('ir-start','iterRange',('''
        start_pos = Payload.get(start_pos)
        if start_pos is not None:
            assert start_pos < len(self.coords)
            i = start_pos
        else:
            i = 0
''','''
        start_pos = Payload.get(start_pos)
        i = 0
        if start_pos is not None:
            assert start_pos < len(self.coords)
            i = start_pos
'''))
R('ir-default','iterRange',('''
    for j, (coord, payload) in enumerate(iter_):
''','''
    default = self.getDefault()
    for j, (coord, payload) in enumerate(iter_):
'''),('default=self.getDefault()','default=default'))
R('ir-within','iterRange',('''
        elif start is None or coord >= start:
            if not Payload.isEmpty(payload, default=self.getDefault()):
''','''
        in_range = start is None or coord >= start
        if in_range:
            if not Payload.isEmpty(payload, default=self.getDefault()):
'''))
R('ir-emit','iterRange',('''
                if is_collecting and tick:
                    Metrics.addUse(rank, coord, i + j)
                yield CoordPayload(coord, payload)
                if is_collecting and tick:
                    Metrics.incIter(rank)
''','''
                yield from _emit(coord, payload, rank, i + j, is_collecting and tick)
'''),('+','''
def _emit(coord, payload, rank, pos, counted):
    if counted:
        Metrics.addUse(rank, coord, pos)
    yield CoordPayload(coord, payload)
    if counted:
        Metrics.incIter(rank)
'''))
R('irs-while','iterRangeShape',('''
    for c in range(start, end, step):
        p = self.getPayload(c)
        yield CoordPayload(c, p)
        if is_collecting and tick:
            Metrics.incIter(rank)
''','''
    counted = is_collecting and tick
    for coord in range(start, end, step):
        yield CoordPayload(coord, self.getPayload(coord))
        if counted:
            Metrics.incIter(rank)
'''))
W('irs-share','iterRangeShape','''
def _iter_range_shape(fiber, lookup, start, end, step, tick):
    is_collecting, rank = _prep_metrics_inc(fiber)
    if is_collecting and tick:
        Metrics.registerRank(rank)
    for c in range(start, end, step):
        p = lookup(c)
        yield CoordPayload(c, p)
        if is_collecting and tick:
            Metrics.incIter(rank)
    if is_collecting and tick:
        Metrics.endIter(rank)

def iterRangeShape(self, start, end, step=1, tick=True):
    assert not self.isLazy()
    yield from _iter_range_shape(self, self.getPayload, start, end, step, tick)
''')
W('irs-help2','iterRangeShapeRef','''
def _begin_iter(fiber, tick):
    is_collecting, rank = _prep_metrics_inc(fiber)
    counted = is_collecting and tick
    if counted:
        Metrics.registerRank(rank)
    return counted, rank

def iterRangeShapeRef(self, start, end, step=1, tick=True):
    assert not self.isLazy()
    counted, rank = _begin_iter(self, tick)
    for c in range(start, end, step):
        p = self.getPayloadRef(c)
        yield CoordPayload(c, p)
        if counted:
            Metrics.incIter(rank)
    if counted:
        Metrics.endIter(rank)
''')
W('pa-var','_project_any','''
def _project_any(fiber, trans_fn):
    rank_id = fiber.getRankAttrs().getId()
    projected = fiber.project(trans_fn=trans_fn, rank_id=rank_id)
    return projected.__iter__(tick=False)
''')
W('pm-order','_prep_metrics_inc','''
def _prep_metrics_inc(fiber):
    rank = str(fiber.getRankAttrs().getId())
    return (Metrics.isCollecting(), rank)
''')
W('cs-var','coiterShape','''
def coiterShape(fibers):
    assert len(fibers) > 0
    first = fibers[0]
    shape = first.getShape(all_ranks=False)
    return type(first).coiterRangeShape(fibers, 0, shape)
''')
W('cas-var','coiterActiveShape','''
def coiterActiveShape(fibers):
    assert len(fibers) > 0
    start, end = fibers[0].getActive()
    return type(fibers[0]).coiterRangeShape(fibers, start, end)
''')
W('cas-truth','coiterActiveShapeRef','''
def coiterActiveShapeRef(fibers):
    assert fibers
    leader = fibers[0]
    return type(leader).coiterRangeShapeRef(fibers, *leader.getActive())
''')
R('crs-list','coiterRangeShape',('''
                payloads = tuple((fiber.getPayload(c) for fiber in self.fibers_))
                yield CoordPayload(c, payloads)
''','''
                payloads = []
                for fiber in self.fibers_:
                    payloads.append(fiber.getPayload(c))
                yield CoordPayload(c, tuple(payloads))
'''))
R('crs-assert','coiterRangeShape',('''
    assert all((not fiber.isLazy() for fiber in fibers))
''','''
    for fiber in fibers:
        assert not fiber.isLazy()
'''))
R('crs-any','coiterRangeShapeRef',('''
    assert all((not fiber.isLazy() for fiber in fibers))
''','''
    assert not any((fiber.isLazy() for fiber in fibers))
'''))
R('crs-direct','coiterRangeShape',('''
        fibers_ = fibers
        start_ = start
        end_ = end
        step_ = step

        def __iter__(self):
            for c in range(self.start_, self.end_, self.step_):
                payloads = tuple((fiber.getPayload(c) for fiber in self.fibers_))
                yield CoordPayload(c, payloads)
''','''
        fibers_ = fibers
        coords_ = range(start, end, step)

        def __iter__(self):
            for c in self.coords_:
                payloads = tuple((fiber.getPayload(c) for fiber in self.fibers_))
                yield CoordPayload(c, payloads)
'''))
R('crs-lead','coiterRangeShape',('''
    fiber = fibers[0].fromIterator(coiter_range_shape_iterator, active_range=(start, end))
    fiber.getRankAttrs().setId(fibers[0].getRankAttrs().getId())
    return fiber
''','''
    leader = fibers[0]
    rank_id = leader.getRankAttrs().getId()
    result = leader.fromIterator(coiter_range_shape_iterator, active_range=(start, end))
    result.getRankAttrs().setId(rank_id)
    return result
'''))
R('crs-wrap','coiterRangeShape',('''
    fiber = fibers[0].fromIterator(coiter_range_shape_iterator, active_range=(start, end))
    fiber.getRankAttrs().setId(fibers[0].getRankAttrs().getId())
    return fiber
''','''
    return _lazy_like(fibers[0], coiter_range_shape_iterator, (start, end))
'''),('+','''
def _lazy_like(leader, iterator, active_range):
    fiber = leader.fromIterator(iterator, active_range=active_range)
    fiber.getRankAttrs().setId(leader.getRankAttrs().getId())
    return fiber
'''))
R('xor-wrap','__xor__',('''
    result = self.fromIterator(xor_iterator, active_range=self.getActive())
    result._setDefault(('', self.getDefault(), other.getDefault()))
    result.getRankAttrs().setId(self.getRankAttrs().getId())
    return result
''','''
    return _lazy_result(self, xor_iterator, ('', self.getDefault(), other.getDefault()))
'''),('+','''
def _lazy_result(fiber, iterator, default):
    result = fiber.fromIterator(iterator, active_range=fiber.getActive())
    result._setDefault(default)
    result.getRankAttrs().setId(fiber.getRankAttrs().getId())
    return result
'''))
R('xor-tail','__xor__',('''
            while a_coord is not None:
                b_default = self.b_fiber._createDefault(addtorank=False)
                yield (a_coord, ('A', a_payload, b_default))
                a_coord, a_payload = _get_next(a)
            while b_coord is not None:
                a_default = self.a_fiber._createDefault(addtorank=False)
                yield (b_coord, ('B', a_default, b_payload))
                b_coord, b_payload = _get_next(b)
''','''
            while b_coord is not None:
                a_default = self.a_fiber._createDefault(addtorank=False)
                yield (b_coord, ('B', a_default, b_payload))
                b_coord, b_payload = _get_next(b)
            while a_coord is not None:
                b_default = self.b_fiber._createDefault(addtorank=False)
                yield (a_coord, ('A', a_payload, b_default))
                a_coord, a_payload = _get_next(a)
'''))
R('xor-true','__xor__',('''
            while a_coord is not None and b_coord is not None:
                if a_coord == b_coord:
''','''
            while True:
                if a_coord is None or b_coord is None:
                    break
                if a_coord == b_coord:
'''))
R('or-true','__or__',('''
            while a_coord is not None and b_coord is not None:
                if a_coord == b_coord:
''','''
            while not (a_coord is None or b_coord is None):
                if b_coord == a_coord:
'''))
R('or-gt','__or__',('''
                elif a_coord < b_coord:
                    if a_traced:
''','''
                elif b_coord > a_coord:
                    if a_traced:
'''))
R('or-onlya','__or__',('''
            while a_coord is not None:
                if a_traced:
                    Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
                    a_pos += 1
                b_default = self.b_fiber._createDefault(addtorank=False)
                yield (a_coord, ('A', a_payload, b_default))
                a_coord, a_payload = _get_next(a)
''','''
            while a_coord is not None:
                if a_traced:
                    Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
                    a_pos += 1
                yield (a_coord, ('A', a_payload, self.b_fiber._createDefault(addtorank=False)))
                a_coord, a_payload = _get_next(a)
'''))
R('or-while1','__or__',('''
            while a_coord is not None and b_coord is not None:
                if a_coord == b_coord:
                    if a_traced:
                        Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
                        a_pos += 1
                    if b_traced:
                        Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
                        b_pos += 1
                    yield (a_coord, ('AB', a_payload, b_payload))
                    a_coord, a_payload = _get_next(a)
                    b_coord, b_payload = _get_next(b)
                elif a_coord < b_coord:
''','''
            while a_coord is not None and b_coord is not None:
                if a_coord == b_coord:
                    if a_traced:
                        Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
                        a_pos += 1
                    if b_traced:
                        Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
                        b_pos += 1
                    yield (a_coord, ('AB', a_payload, b_payload))
                    a_coord, a_payload = _get_next(a)
                    b_coord, b_payload = _get_next(b)
                    continue
                if a_coord < b_coord:
'''))
R('sub-loop','__sub__',('''
            while a_coord is not None:
                yield (a_coord, a_payload)
                a_coord, a_payload = _get_next(a)
''','''
            while True:
                if a_coord is None:
                    break
                yield (a_coord, a_payload)
                a_coord, a_payload = _get_next(a)
'''))
R('sub-yfrom','__sub__',('''
            while a_coord is not None:
                yield (a_coord, a_payload)
                a_coord, a_payload = _get_next(a)
''','''
            yield from _drain(a, a_coord, a_payload)
'''),('+','''
def _drain(iter_, coord, payload):
    while coord is not None:
        yield (coord, payload)
        coord, payload = _get_next(iter_)
'''))
R('sub-chain','__sub__',('''
                if a_coord == b_coord:
                    a_coord, a_payload = _get_next(a)
                    b_coord, b_payload = _get_next(b)
                elif a_coord < b_coord:
                    yield (a_coord, a_payload)
                    a_coord, a_payload = _get_next(a)
                else:
                    b_coord, b_payload = _get_next(b)
''','''
                if a_coord > b_coord:
                    b_coord, b_payload = _get_next(b)
                    continue
                if a_coord == b_coord:
                    b_coord, b_payload = _get_next(b)
                else:
                    yield (a_coord, a_payload)
                a_coord, a_payload = _get_next(a)
'''))
R('and-len','__and__',('''
            len_a = len(a_coord) if isinstance(a_coord, tuple) else 1
            len_b = len(b_coord) if isinstance(b_coord, tuple) else 1
''','''
            len_a = _coord_len(a_coord)
            len_b = _coord_len(b_coord)
'''),('+','''
def _coord_len(coord):
    if isinstance(coord, tuple):
        return len(coord)
    return 1
'''))
R('and-use','__and__',('''
                if a_coord < b_coord:
                    if a_traced:
                        Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
                        a_pos += 1
                    if is_collecting:
                        Metrics.incIter(rank)
                    a_coord, a_payload = _get_next(a)
                    continue
                if a_coord > b_coord:
                    if b_traced:
                        Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
                        b_pos += 1
                    if is_collecting:
                        Metrics.incIter(rank)
                    b_coord, b_payload = _get_next(b)
                    continue
''','''
                behind = a_coord < b_coord
                if behind:
                    if a_traced:
                        Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
                        a_pos += 1
                elif a_coord > b_coord:
                    if b_traced:
                        Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
                        b_pos += 1
                if behind or a_coord > b_coord:
                    if is_collecting:
                        Metrics.incIter(rank)
                    if behind:
                        a_coord, a_payload = _get_next(a)
                    else:
                        b_coord, b_payload = _get_next(b)
'''))
R('and-end','__and__',('''
            if a_traced and a_coord is not None:
                Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
            if b_traced and b_coord is not None:
                Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
            if is_collecting:
                Metrics.incIter(rank)
            return
''','''
            if is_collecting:
                if a_traced and a_coord is not None:
                    Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
                if b_traced and b_coord is not None:
                    Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
                Metrics.incIter(rank)
'''))
R('ls-active','__lshift__',('''
    self.setActive(other.getActive())
''','''
    active = other.getActive()
    self.setActive(active)
'''))
R('ls-apos','__lshift__',('''
            a_pos = self.spec_pos
            if a_pos is None:
                a_pos = 0
''','''
            a_pos = 0 if self.spec_pos is None else self.spec_pos
'''))
R('ls-loc','__lshift__',('''
                get_payload_pos = None
                if self.a_fiber.coords:
                    a_pos += bisect.bisect_left(self.a_fiber.coords[a_pos:], b_coord)
                    if a_pos < len(self.a_fiber.coords) and self.a_fiber.coords[a_pos] == b_coord:
                        get_payload_pos = a_pos
                    elif a_pos:
                        get_payload_pos = a_pos - 1
''','''
                a_coords = self.a_fiber.coords
                get_payload_pos = None
                if a_coords:
                    a_pos += bisect.bisect_left(a_coords[a_pos:], b_coord)
                    found = a_pos < len(a_coords) and a_coords[a_pos] == b_coord
                    if found:
                        get_payload_pos = a_pos
                    elif a_pos:
                        get_payload_pos = a_pos - 1
'''))
R('ls-next','__lshift__',('''
                    if self.a_fiber.getOwner() is not None and self.a_fiber.getOwner().getNextRank() is not None:
                        popped = self.a_fiber.getOwner().getNextRank().pop()
                        assert id(a_payload) == id(popped)
''','''
                    owner = self.a_fiber.getOwner()
                    next_rank = owner.getNextRank() if owner is not None else None
                    if next_rank is not None:
                        popped = next_rank.pop()
                        assert a_payload is popped
'''))
R('ls-new','__lshift__',('''
                new_a_payload = a_payload is None
                if new_a_payload:
                    a_payload = self.a_fiber._create_payload(b_coord, pos=a_pos)
                    maybe_remove = True
                    self.a_fiber.setSavedPos(a_pos)
                elif a_read_traced:
                    Metrics.addUse(rank, b_coord, a_pos - len(to_insert), type_=a_read_trace)
                    maybe_remove = False
                else:
                    maybe_remove = False
''','''
                new_a_payload = a_payload is None
                maybe_remove = new_a_payload
                if new_a_payload:
                    a_payload = self.a_fiber._create_payload(b_coord, pos=a_pos)
                    self.a_fiber.setSavedPos(a_pos)
                elif a_read_traced:
                    Metrics.addUse(rank, b_coord, a_pos - len(to_insert), type_=a_read_trace)
'''))
R('ls-defhelp','__lshift__',('''
                if maybe_remove and (isinstance(a_payload, type(self.a_fiber)) and len(a_payload) == 0) or (not isinstance(a_payload, type(self.a_fiber)) and a_payload == self.a_fiber.getDefault()):
''','''
                if isinstance(a_payload, type(self.a_fiber)):
                    remove = maybe_remove and len(a_payload) == 0
                else:
                    remove = a_payload == self.a_fiber.getDefault()
                if remove:
'''))
R('ls-pop','__lshift__',('''
                    del self.a_fiber.coords[index]
                    del self.a_fiber.payloads[index]
''','''
                    self.a_fiber.coords.pop(index)
                    self.a_fiber.payloads.pop(index)
'''))
R('ls-trlabel','__lshift__',('''
                a_label = str(Metrics.getLabel(rank))
                b_label = str(Metrics.getLabel(rank))
                compressed_output = self.a_fiber.getRankAttrs().getFormat() == 'C'
                a_read_trace = 'populate_read_' + a_label
                a_write_trace = 'populate_write_' + a_label
                b_trace = 'populate_' + b_label
''','''
                compressed_output = self.a_fiber.getRankAttrs().getFormat() == 'C'
                a_label = Metrics.getLabel(rank)
                a_read_trace = f'populate_read_{a_label}'
                a_write_trace = f'populate_write_{a_label}'
                b_label = Metrics.getLabel(rank)
                b_trace = f'populate_{b_label}'
'''))
R('ls-write','__lshift__',('''
                    if inserting and new_a_payload:
                        old_end = b_coord + 1
                        write_pos = insert_pos + len(to_insert)
                        to_insert.append(b_coord)
                        if len(to_insert) == 1:
                            insert_start_pos = a_pos
                    else:
                        write_pos = a_pos - len(to_insert)
''','''
                    if not (inserting and new_a_payload):
                        write_pos = a_pos - len(to_insert)
                    else:
                        write_pos = insert_pos + len(to_insert)
                        if not to_insert:
                            insert_start_pos = a_pos
                        to_insert.append(b_coord)
                        old_end = b_coord + 1
'''))
R('ls-bulk','__lshift__',('''
                for i, (c, p) in enumerate(reversed(list(self.a_fiber.iterOccupancy(tick=False, start_pos=insert_start_pos)))):
                    write_pos = len(self.a_fiber) - i - 1
''','''
                moved = list(self.a_fiber.iterOccupancy(tick=False, start_pos=insert_start_pos))
                for i, (c, p) in enumerate(reversed(moved)):
                    write_pos = len(self.a_fiber) - (i + 1)
'''))
R('un-mask','union',('''
                    if 'B' in ab_mask:
                        p[0] = chr(ord('A') + i) + p[0]
                    p[i + 1] = np[2]
                    np = np[1]
''','''
                    p[i + 1] = np[2]
                    if 'B' in ab_mask:
                        p[0] = chr(ord('A') + i) + p[0]
                    np = np[1]
'''))
R('un-fold','union',('''
    nested_result = args[0] | args[1]
    for arg in args[2:]:
        nested_result = nested_result | arg
''','''
    first, second, *rest = args
    nested_result = first | second
    for fiber in rest:
        nested_result = nested_result | fiber
'''))
R('un-payl','union',('''
                    if isinstance(np, Payload):
                        np = np.v()
''','''
                    np = np.v() if isinstance(np, Payload) else np
'''))
R('in-style','intersection',('''
    if 'style' in kwargs:
        style = kwargs['style']
    else:
        style = 'two-finger'
''','''
    style = 'two-finger'
    if 'style' in kwargs:
        style = kwargs['style']
'''))
R('in-while','intersection',('''
                    while isinstance(Payload.get(np), tuple):
                        val = Payload.get(np)
                        p.append(val[1])
                        np = val[0]
                    p.append(np)
''','''
                    val = Payload.get(np)
                    while isinstance(val, tuple):
                        np, last = val
                        p.append(last)
                        val = Payload.get(np)
                    p.append(np)
'''))
R('in-rev','intersection',('''
                    p.append(np)
                    yield CoordPayload(c, tuple(reversed(p)))
''','''
                    p.append(np)
                    p.reverse()
                    yield CoordPayload(c, tuple(p))
'''))
R('in-rev2','intersection',('''
                    yield CoordPayload(c, tuple(reversed(p)))
''','''
                    yield CoordPayload(c, tuple(p[::-1]))
'''))
R('in-help','intersection',('''
                for c, np in self.nested.__iter__(tick=False):
                    p = []
                    while isinstance(Payload.get(np), tuple):
                        val = Payload.get(np)
                        p.append(val[1])
                        np = val[0]
                    p.append(np)
                    yield CoordPayload(c, tuple(reversed(p)))
''','''
                for c, np in self.nested.__iter__(tick=False):
                    yield CoordPayload(c, _flatten_nested(np))
'''),('+','''
def _flatten_nested(np):
    p = []
    while isinstance(Payload.get(np), tuple):
        val = Payload.get(np)
        p.append(val[1])
        np = val[0]
    p.append(np)
    return tuple(reversed(p))
'''))
R('in-lf3','intersection',('''
                start_pos = [0 if fiber.isOrdered() else None for fiber in self.fibers[1:]]
''','''
                start_pos = []
                for fiber in self.fibers[1:]:
                    start_pos.append(0 if fiber.isOrdered() else None)
'''))
R('in-lf4','intersection',('''
                    rank = self.fibers[0].getRankAttrs().getId()
                    traces = ['intersect_' + str(Metrics.getLabel(rank)) for _ in range(len(self.fibers))]
''','''
                    rank = self.fibers[0].getRankAttrs().getId()
                    traces = [f'intersect_{Metrics.getLabel(rank)}' for _ in self.fibers]
'''))
