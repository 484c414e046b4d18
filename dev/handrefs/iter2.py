F('core/iterators.py')
W('gn-star','_get_next','''
def _get_next(iter_):
    try:
        return CoordPayload(*next(iter_))
    except StopIteration:
        return (None, None)
''')
W('gn-sentinel','_get_next','''
def _get_next(iter_):
    element = next(iter_, None)
    if element is None:
        return (None, None)
    coord, payload = element
    return CoordPayload(coord, payload)
''')
R('xor-elifs','__xor__',('''
                if a_coord == b_coord:
                    a_coord, a_payload = _get_next(a)
                    b_coord, b_payload = _get_next(b)
                elif a_coord < b_coord:
                    b_default = self.b_fiber._createDefault(addtorank=False)
                    yield (a_coord, ('A', a_payload, b_default))
                    a_coord, a_payload = _get_next(a)
                else:
                    a_default = self.a_fiber._createDefault(addtorank=False)
                    yield (b_coord, ('B', a_default, b_payload))
                    b_coord, b_payload = _get_next(b)
''','''
                if a_coord < b_coord:
                    yield a_coord, ("A", a_payload, self.b_fiber._createDefault(addtorank=False))
                    a_coord, a_payload = _get_next(a)
                elif b_coord < a_coord:
                    yield b_coord, ("B", self.a_fiber._createDefault(addtorank=False), b_payload)
                    b_coord, b_payload = _get_next(b)
                else:
                    a_coord, a_payload = _get_next(a)
                    b_coord, b_payload = _get_next(b)
'''))
R('xor-order','__xor__',('''
                elif a_coord < b_coord:
                    b_default = self.b_fiber._createDefault(addtorank=False)
                    yield (a_coord, ('A', a_payload, b_default))
                    a_coord, a_payload = _get_next(a)
                else:
                    a_default = self.a_fiber._createDefault(addtorank=False)
                    yield (b_coord, ('B', a_default, b_payload))
                    b_coord, b_payload = _get_next(b)
''','''
                elif a_coord > b_coord:
                    a_default = self.a_fiber._createDefault(addtorank=False)
                    yield (b_coord, ('B', a_default, b_payload))
                    b_coord, b_payload = _get_next(b)
                else:
                    b_default = self.b_fiber._createDefault(addtorank=False)
                    yield (a_coord, ('A', a_payload, b_default))
                    a_coord, a_payload = _get_next(a)
'''))
R('sub-not','__sub__',('''
                if a_coord == b_coord:
                    a_coord, a_payload = _get_next(a)
                    b_coord, b_payload = _get_next(b)
                elif a_coord < b_coord:
                    yield (a_coord, a_payload)
                    a_coord, a_payload = _get_next(a)
                else:
                    b_coord, b_payload = _get_next(b)
''','''
                if a_coord > b_coord:
                    b_coord, b_payload = _get_next(b)
                    continue

                if a_coord == b_coord:
                    b_coord, b_payload = _get_next(b)
                else:
                    yield a_coord, a_payload

                a_coord, a_payload = _get_next(a)
'''))
R('sub-one','__sub__',('''
            while a_coord is not None and b_coord is not None:
                if a_coord == b_coord:
                    a_coord, a_payload = _get_next(a)
                    b_coord, b_payload = _get_next(b)
                elif a_coord < b_coord:
                    yield (a_coord, a_payload)
                    a_coord, a_payload = _get_next(a)
                else:
                    b_coord, b_payload = _get_next(b)
            while a_coord is not None:
                yield (a_coord, a_payload)
                a_coord, a_payload = _get_next(a)
''','''
            while a_coord is not None:
                if b_coord is None or a_coord < b_coord:
                    yield a_coord, a_payload
                    a_coord, a_payload = _get_next(a)
                elif a_coord == b_coord:
                    a_coord, a_payload = _get_next(a)
                    b_coord, b_payload = _get_next(b)
                else:
                    b_coord, b_payload = _get_next(b)
'''))
R('or-drain','__or__',('''
            while a_coord is not None:
                if a_traced:
                    Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
                    a_pos += 1
                b_default = self.b_fiber._createDefault(addtorank=False)
                yield (a_coord, ('A', a_payload, b_default))
                a_coord, a_payload = _get_next(a)
''','''
            while a_coord is not None:
                if a_traced:
                    Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
                    a_pos += 1
                absent = self.b_fiber._createDefault(addtorank=False)
                payload = ("A", a_payload, absent)
                yield a_coord, payload
                a_coord, a_payload = _get_next(a)
'''))
R('or-use-helper','__or__',('''
        def __iter__(self):
''','''
        @staticmethod
        def _use(traced, rank, coord, pos, trace):
            if not traced:
                return pos
            Metrics.addUse(rank, coord, pos, type_=trace)
            return pos + 1

        def __iter__(self):
'''),('''
                if a_coord == b_coord:
                    if a_traced:
                        Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
                        a_pos += 1
                    if b_traced:
                        Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
                        b_pos += 1
''','''
                if a_coord == b_coord:
                    if a_traced:
                        a_pos = self._use(a_traced, rank, a_coord, a_pos, a_trace)
                    if b_traced:
                        b_pos = self._use(b_traced, rank, b_coord, b_pos, b_trace)
'''))
R('and-elif','__and__',('''
                    a_coord, a_payload, b_coord, b_payload = succ_next(a, a_coord, a_payload, b, b_coord, b_payload)
                    continue
                if a_coord < b_coord:''','''
                    a_coord, a_payload, b_coord, b_payload = succ_next(a, a_coord, a_payload, b, b_coord, b_payload)
                elif a_coord < b_coord:'''),('''
                    a_coord, a_payload = _get_next(a)
                    continue
                if a_coord > b_coord:''','''
                    a_coord, a_payload = _get_next(a)
                elif a_coord > b_coord:'''),('''
                    b_coord, b_payload = _get_next(b)
                    continue
''','''
                    b_coord, b_payload = _get_next(b)
'''))
R('and-label','__and__',('''
                a_label = str(Metrics.getLabel(rank))
                b_label = str(Metrics.getLabel(rank))
                a_trace = 'intersect_' + a_label
                b_trace = 'intersect_' + b_label
''','''
                a_trace = f"intersect_{Metrics.getLabel(rank)}"
                b_trace = f"intersect_{Metrics.getLabel(rank)}"
'''))
R('and-traces-helper','__and__',('''
            a_traced = False
            b_traced = False
            if is_collecting:
                rank = self.a_fiber.getRankAttrs().getId()
                a_label = str(Metrics.getLabel(rank))
                b_label = str(Metrics.getLabel(rank))
                a_trace = 'intersect_' + a_label
                b_trace = 'intersect_' + b_label
                a_traced = Metrics.isTraced(rank, a_trace)
                b_traced = Metrics.isTraced(rank, b_trace)
                a_pos = 0
                b_pos = 0
''','''
            a_traced, b_traced = False, False
            if is_collecting:
                rank = self.a_fiber.getRankAttrs().getId()
                a_trace, a_traced = self._trace(rank)
                b_trace, b_traced = self._trace(rank)
                a_pos, b_pos = 0, 0
'''),('''
        def __iter__(self):
''','''
        @staticmethod
        def _trace(rank):
            name = "intersect_" + str(Metrics.getLabel(rank))
            return name, Metrics.isTraced(rank, name)

        def __iter__(self):
'''))
R('and-extend-helper','__and__',('''
                if isinstance(a_coord, int):
                    extra = (ANY,) * (len_b - 1)
                    a = _project_any(self.a_fiber, lambda c: (c,) + extra)
                else:
                    extra = (ANY,) * (len_b - len_a)
                    a = _project_any(self.a_fiber, lambda c: c + extra)
''','''
                a = self._extend(self.a_fiber, a_coord, len_a, len_b)
'''),('''
                if isinstance(b_coord, int):
                    extra = (ANY,) * (len_a - 1)
                    b = _project_any(self.b_fiber, lambda c: (c,) + extra)
                else:
                    extra = (ANY,) * (len_a - len_b)
                    b = _project_any(self.b_fiber, lambda c: c + extra)
''','''
                b = self._extend(self.b_fiber, b_coord, len_b, len_a)
'''),('''
        def __iter__(self):
''','''
        @staticmethod
        def _extend(fiber, coord, short, long_):
            if isinstance(coord, int):
                extra = (ANY,) * (long_ - 1)
                return _project_any(fiber, lambda c: (c,) + extra)

            extra = (ANY,) * (long_ - short)
            return _project_any(fiber, lambda c: c + extra)

        def __iter__(self):
'''))
R('inter-get','intersection',('''
    if 'style' in kwargs:
        style = kwargs['style']
    else:
        style = 'two-finger'
''','''
    style = kwargs.get("style", "two-finger")
'''))
R('inter-reduce','intersection',('''
        nested_result = args[0] & args[1]
        for arg in args[2:]:
            nested_result = nested_result & arg
''','''
        nested_result = args[0] & args[1]
        rest = args[2:]
        for k in range(len(rest)):
            nested_result &= rest[k]
'''))
R('inter-flat','intersection',('''
                    p = []
                    while isinstance(Payload.get(np), tuple):
                        val = Payload.get(np)
                        p.append(val[1])
                        np = val[0]
                    p.append(np)
                    yield CoordPayload(c, tuple(reversed(p)))
''','''
                    flat = []
                    val = Payload.get(np)
                    while isinstance(val, tuple):
                        flat.append(val[1])
                        np = val[0]
                        val = Payload.get(np)
                    flat.append(np)
                    flat.reverse()
                    yield CoordPayload(c, tuple(flat))
'''))
R('inter-lf','intersection',('''
                    for j, fiber in enumerate(self.fibers[1:]):
                        p_fiber = fiber.getPayload(c, start_pos=start_pos[j], trace=traces[j + 1])
                        if start_pos[j] is not None:
                            start_pos[j] = fiber.getSavedPos()
                        payloads.append(p_fiber)
''','''
                    for j, (fiber, trace) in enumerate(zip(self.fibers[1:], traces[1:])):
                        payloads.append(fiber.getPayload(c, start_pos=start_pos[j], trace=trace))
                        if start_pos[j] is not None:
                            start_pos[j] = fiber.getSavedPos()
'''))
R('inter-lf2','intersection',('''
                traces = [''] * len(self.fibers)
                if is_collecting:
                    rank = self.fibers[0].getRankAttrs().getId()
                    traces = ['intersect_' + str(Metrics.getLabel(rank)) for _ in range(len(self.fibers))]
''','''
                if not is_collecting:
                    traces = ["" for _ in self.fibers]
                else:
                    rank = self.fibers[0].getRankAttrs().getId()
                    traces = ["intersect_" + str(Metrics.getLabel(rank)) for _ in self.fibers]
'''))
R('union-loop','union',('''
                p = [None] * (self.num_args + 1)
                p[0] = ''
                for i in range(self.num_args - 1, 0, -1):
                    if isinstance(np, Payload):
                        np = np.v()
                    ab_mask = np[0]
                    if 'B' in ab_mask:
                        p[0] = chr(ord('A') + i) + p[0]
                    p[i + 1] = np[2]
                    np = np[1]
                if 'A' in ab_mask:
                    p[0] = 'A' + p[0]
                p[1] = np
                yield CoordPayload(c, tuple(p))
''','''
                mask = ""
                p = [None] * (self.num_args + 1)
                for i in range(self.num_args - 1, 0, -1):
                    np = Payload.get(np)
                    ab_mask = np[0]
                    if "B" in ab_mask:
                        mask = chr(ord("A") + i) + mask
                    p[i + 1] = np[2]
                    np = np[1]
                if "A" in ab_mask:
                    mask = "A" + mask
                p[0] = mask
                p[1] = np
                yield CoordPayload(c, tuple(p))
'''))
R('union-rev','union',('''
                for i in range(self.num_args - 1, 0, -1):''','''
                for i in reversed(range(1, self.num_args)):'''),)
R('union-default','union',('''tuple([''] + [arg.getDefault() for arg in args])''','''("", *(arg.getDefault() for arg in args))'''))
# lshift
R('ls-remove','__lshift__',('''
                    index = bisect.bisect_left(self.a_fiber.coords, b_coord)
                    del self.a_fiber.coords[index]
                    del self.a_fiber.payloads[index]
''','''
                    index = bisect.bisect_left(self.a_fiber.coords, b_coord)
                    self.a_fiber.coords.pop(index)
                    self.a_fiber.payloads.pop(index)
'''))
R('ls-owner','__lshift__',('''
                    if self.a_fiber.getOwner() is not None and self.a_fiber.getOwner().getNextRank() is not None:
                        popped = self.a_fiber.getOwner().getNextRank().pop()
                        assert id(a_payload) == id(popped)
''','''
                    owner = self.a_fiber.getOwner()
                    if owner is not None:
                        next_rank = owner.getNextRank()
                        if next_rank is not None:
                            popped = next_rank.pop()
                            assert a_payload is popped
'''))
R('ls-fiber','__lshift__',('''
            maybe_remove = False
            b = self.b_fiber.__iter__(tick=False)
''','''
            a_fiber = self.a_fiber
            maybe_remove = False
            b = self.b_fiber.__iter__(tick=False)
'''),('''
                    self.a_fiber.setSavedPos(a_pos)
                elif a_read_traced:
''','''
                    a_fiber.setSavedPos(a_pos)
                elif a_read_traced:
'''),('''
                    a_payload = self.a_fiber._create_payload(b_coord, pos=a_pos)
''','''
                    a_payload = a_fiber._create_payload(b_coord, pos=a_pos)
'''))
R('ls-pos','__lshift__',('''
            a_pos = self.spec_pos
            if a_pos is None:
                a_pos = 0
''','''
            a_pos = 0 if self.spec_pos is None else self.spec_pos
'''))
R('ls-removeflag','__lshift__',('''
                new_a_payload = a_payload is None
                if new_a_payload:
                    a_payload = self.a_fiber._create_payload(b_coord, pos=a_pos)
                    maybe_remove = True
                    self.a_fiber.setSavedPos(a_pos)
                elif a_read_traced:
                    Metrics.addUse(rank, b_coord, a_pos - len(to_insert), type_=a_read_trace)
                    maybe_remove = False
                else:
                    maybe_remove = False
''','''
                new_a_payload = a_payload is None
                maybe_remove = new_a_payload
                if new_a_payload:
                    a_payload = self.a_fiber._create_payload(b_coord, pos=a_pos)
                    self.a_fiber.setSavedPos(a_pos)
                elif a_read_traced:
                    Metrics.addUse(rank, b_coord, a_pos - len(to_insert), type_=a_read_trace)
'''))
R('ls-empty','__lshift__',('''
                if maybe_remove and (isinstance(a_payload, type(self.a_fiber)) and len(a_payload) == 0) or (not isinstance(a_payload, type(self.a_fiber)) and a_payload == self.a_fiber.getDefault()):
''','''
                if isinstance(a_payload, type(self.a_fiber)):
                    remove = maybe_remove and len(a_payload) == 0
                else:
                    remove = a_payload == self.a_fiber.getDefault()
                if remove:
'''))
R('ls-empty2','__lshift__',('''
                if maybe_remove and (isinstance(a_payload, type(self.a_fiber)) and len(a_payload) == 0) or (not isinstance(a_payload, type(self.a_fiber)) and a_payload == self.a_fiber.getDefault()):
''','''
                if self._still_default(a_payload, maybe_remove):
'''),('''
        def __iter__(self):
''','''
        def _still_default(self, payload, fresh):
            if isinstance(payload, type(self.a_fiber)):
                return fresh and len(payload) == 0
            return payload == self.a_fiber.getDefault()

        def __iter__(self):
'''))
R('ls-search','__lshift__',('''
                get_payload_pos = None
                if self.a_fiber.coords:
                    a_pos += bisect.bisect_left(self.a_fiber.coords[a_pos:], b_coord)
                    if a_pos < len(self.a_fiber.coords) and self.a_fiber.coords[a_pos] == b_coord:
                        get_payload_pos = a_pos
                    elif a_pos:
                        get_payload_pos = a_pos - 1
''','''
                get_payload_pos = None
                coords = self.a_fiber.coords
                if len(coords) > 0:
                    a_pos = a_pos + bisect.bisect_left(coords[a_pos:], b_coord)
                    present = a_pos < len(coords) and coords[a_pos] == b_coord
                    if present:
                        get_payload_pos = a_pos
                    elif a_pos > 0:
                        get_payload_pos = a_pos - 1
'''))
W('reversed-idx','__reversed__','''
def __reversed__(self):
    assert not self.isLazy()
    for pos in range(len(self.coords) - 1, -1, -1):
        yield CoordPayload(self.coords[pos], self.payloads[pos])
''')
W('reversed-zip','__reversed__','''
def __reversed__(self):
    assert not self.isLazy()
    elements = list(zip(self.coords, self.payloads))
    for coord, payload in reversed(elements):
        yield CoordPayload(coord, payload)
''')
