F('model/intersect.py')
R('lf-bool','LeaderFollowerIntersector.addTraces',('''
        new_intersects = len(traces[0])
        if not self.started and traces[0]:
            self.started = True
            new_intersects -= 1
        self.num_intersects += new_intersects
''','''
        (trace,) = traces
        if trace and not self.started:
            self.num_intersects += len(trace) - 1
            self.started = True
        else:
            self.num_intersects += len(trace)
'''))
R('lf-hdr','LeaderFollowerIntersector.addTraces',('''
        new_intersects = len(traces[0])
        if not self.started and traces[0]:
            self.started = True
            new_intersects -= 1
        self.num_intersects += new_intersects
''','''
        trace = traces[0]
        if not self.started and len(trace) > 0:
            self.started = True
            trace = trace[1:]
        self.num_intersects += len(trace)
'''))
R('tf-unpack','TwoFingerIntersector.addTraces',('''
        assert len(traces) == 2
        trace0 = traces[0]
        trace1 = traces[1]
''','''
        assert len(traces) == 2
        trace0, trace1 = traces
'''))
W('tf-base','',open('/tmp/intersect_s.py').read().replace('''
        if not self.started and trace0:
            self.started = True
            self.num_ranks = (len(trace0[0]) - 1) // 2
            trace0 = trace0[1:]
            trace1 = trace1[1:]
        i0 = -1
''','''
        trace0, trace1 = self._strip_header(trace0, trace1)
        i0 = -1
''').replace('''
    def getNumIntersects(self):
''','''
    def _strip_header(self, trace0, trace1):
        if self.started or not trace0:
            return trace0, trace1
        self.started = True
        self.num_ranks = (len(trace0[0]) - 1) // 2
        return trace0[1:], trace1[1:]

    def getNumIntersects(self):
'''))
W('tf-next','',open('/tmp/intersect_s.py').read().replace('''

        def get_next(trace, i):
            if i + 1 < len(trace):
                return (trace[i + 1][self.num_ranks:self.num_ranks * 2], i + 1)
            return (None, None)
''','\n').replace('get_next(','self._get_next(').replace('''
    def getNumIntersects(self):
''','''
    def _get_next(self, trace, i):
        i += 1
        if i >= len(trace):
            return None, None
        return trace[i][self.num_ranks:2 * self.num_ranks], i

    def getNumIntersects(self):
'''))
R('tf-tern','TwoFingerIntersector.addTraces',('''
            if point0:
                fiber = point0[:-1]
            else:
                fiber = None
''','''
            fiber = point0[:-1] if point0 else None
'''),('''
        assert point0 is not None and point1 is not None and (point0[:-1] == point1[:-1])
''','''
        assert point0[:-1] == point1[:-1]
'''))
R('tf-order','TwoFingerIntersector.addTraces',('''
            self.num_intersects += 1
            if point0 == point1:
                point0, i0 = get_next(trace0, i0)
                point1, i1 = get_next(trace1, i1)
                if point0 and point1 and (point0[:-1] < point1[:-1]):
                    point0, i0 = get_next(trace0, i0)
                elif point0 and point1 and (point1[:-1] < point0[:-1]):
                    point1, i1 = get_next(trace1, i1)
            elif point0 < point1:
                point0, i0 = get_next(trace0, i0)
                if point0 is None or fiber != point0[:-1]:
                    point1, i1 = get_next(trace1, i1)
            else:
                point1, i1 = get_next(trace1, i1)
                if point1 is None or fiber != point1[:-1]:
                    point0, i0 = get_next(trace0, i0)
''','''
            self.num_intersects += 1
            if point0 < point1:
                point0, i0 = get_next(trace0, i0)
                if point0 is None or point0[:-1] != fiber:
                    point1, i1 = get_next(trace1, i1)
            elif point0 > point1:
                point1, i1 = get_next(trace1, i1)
                if point1 is None or point1[:-1] != fiber:
                    point0, i0 = get_next(trace0, i0)
            else:
                point0, i0 = get_next(trace0, i0)
                point1, i1 = get_next(trace1, i1)
                if point0 and point1:
                    if point0[:-1] < point1[:-1]:
                        point0, i0 = get_next(trace0, i0)
                    elif point1[:-1] < point0[:-1]:
                        point1, i1 = get_next(trace1, i1)
'''))
R('tf-count','TwoFingerIntersector.addTraces',('''
        while point0 and point1:
            self.num_intersects += 1
''','''
        count = 0
        while point0 and point1:
            count += 1
'''),('''
            if point0:
                fiber = point0[:-1]
            else:
                fiber = None
''','''
            if point0:
                fiber = point0[:-1]
            else:
                fiber = None
        self.num_intersects += count
'''))
R('sa-step','SkipAheadIntersector.addTraces',('''
            elif point0 < point1:
                if curr != 0:
                    curr = 0
                    self.num_intersects += 1
                point0''','''
            elif point0 < point1:
                self.num_intersects += 1 if curr != 0 else 0
                curr = 0
                point0'''),('''
                if curr != 1:
                    curr = 1
                    self.num_intersects += 1
''','''
                self.num_intersects += 1 if curr != 1 else 0
                curr = 1
'''))
R('sa-fib','SkipAheadIntersector.addTraces',('''
            old_fiber = fiber
            if point0:
                fiber = point0[:-1]
            else:
                fiber = None
            if fiber != old_fiber:
                curr = None
''','''
            new_fiber = point0[:-1] if point0 else None
            if new_fiber != fiber:
                curr = None
            fiber = new_fiber
'''))
R('sa-adv','SkipAheadIntersector.addTraces',('''
        fiber = point0[:-1]
        curr = None
''','''
        def skip(leader, curr):
            if curr != leader:
                self.num_intersects += 1
            return leader
        fiber = point0[:-1]
        curr = None
'''),('''
                if curr != 0:
                    curr = 0
                    self.num_intersects += 1
''','''
                curr = skip(0, curr)
'''),('''
                if curr != 1:
                    curr = 1
                    self.num_intersects += 1
''','''
                curr = skip(1, curr)
'''))
R('sa-break','SkipAheadIntersector.addTraces',('''
        while point0 and point1:
            if point0 == point1:''','''
        while True:
            if not point0 or not point1:
                break
            if point0 == point1:'''))
F('model/compute.py')
R('ni-sum','Compute.numIters',('''
            f.readline()
            iters = 0
            while f.readline():
                iters += 1
        return iters
''','''
            f.readline()
            return sum(1 for _ in f)
'''))
R('ni-lines','Compute.numIters',('''
            f.readline()
            iters = 0
            while f.readline():
                iters += 1
        return iters
''','''
            f.readline()
            iters = 0
            line = f.readline()
            while line:
                iters += 1
                line = f.readline()
            return iters
'''))
R('no-if','Compute.numOps',('''
        metric = 'payload_' + op
        return dump.get('Compute', {}).get(metric, 0)
''','''
        if 'Compute' not in dump:
            return 0
        return dump['Compute'].get(f'payload_{op}', 0)
'''))
R('st-sum','Compute._numSwapsTree',('''
        swaps = 0
        if depth > 0:
            depth -= 1
            for _, payload in fiber:
                swaps += Compute._numSwapsTree(payload, depth, radix, next_latency)
            return swaps
        coords = []
''','''
        if depth > 0:
            return sum(Compute._numSwapsTree(payload, depth - 1, radix, next_latency) for _, payload in fiber)
        swaps = 0
        coords = []
'''))
R('st-split','Compute._numSwapsTree',('''
        swaps = 0
        if depth > 0:
            depth -= 1
            for _, payload in fiber:
                swaps += Compute._numSwapsTree(payload, depth, radix, next_latency)
            return swaps
        coords = []
        for _, payload in fiber:
            coords.append(sorted([-c for c in payload.getCoords()]))
        while len(coords) > 1:
''','''
        if depth > 0:
            swaps = 0
            for _, payload in fiber:
                swaps += Compute._numSwapsTree(payload, depth - 1, radix, next_latency)
            return swaps
        lists = [sorted((-c for c in payload.getCoords())) for _, payload in fiber]
        return Compute._numSwapsLists(lists, radix, next_latency)

    @staticmethod
    def _numSwapsLists(coords, radix, next_latency):
        swaps = 0
        while len(coords) > 1:
'''))
R('st-radix','Compute._numSwapsTree',('''
            new = []
            if radix == 'N' or radix > len(coords):
                radix = len(coords)
            for i in range(0, len(coords), radix):
                end = min(i + radix, len(coords))
                ops, merged = Compute._merge(coords[i:end], radix, next_latency)
                swaps += ops
                new.append(merged)
            coords = new
''','''
            num_lists = len(coords)
            if radix == 'N' or num_lists < radix:
                radix = num_lists
            merged_lists = []
            for start in range(0, num_lists, radix):
                ops, merged = Compute._merge(coords[start:min(start + radix, num_lists)], radix, next_latency)
                merged_lists.append(merged)
                swaps += ops
            coords = merged_lists
'''))
R('st-noend','Compute._numSwapsTree',('''
                end = min(i + radix, len(coords))
                ops, merged = Compute._merge(coords[i:end], radix, next_latency)
''','''
                ops, merged = Compute._merge(coords[i:i + radix], radix, next_latency)
'''))
R('mg-sorted','Compute._merge',('''
            merged = [c for list_ in coords for c in list_]
            merged.sort()
            return''','''
            merged = sorted(c for list_ in coords for c in list_)
            return'''))
R('mg-helper','Compute._merge',('''
        head = []
        compares = 0
        for i, list_ in enumerate(coords):
            elem = (list_.pop(), i)
            j = bisect.bisect_right(head, elem)
            compares += len(head) - j + 1
            head.insert(j, elem)
''','''
        head = []
        compares = 0

        def push(elem):
            j = bisect.bisect_right(head, elem)
            cost = len(head) - j + 1
            head.insert(j, elem)
            return cost
        for i, list_ in enumerate(coords):
            compares += push((list_.pop(), i))
'''),('''
            new = (coords[elem[1]].pop(), elem[1])
            j = bisect.bisect_right(head, new)
            compares += len(head) - j + 1
            head.insert(j, new)
''','''
            compares += push((coords[elem[1]].pop(), elem[1]))
'''))
R('mg-unpack','Compute._merge',('''
            elem = head.pop()
            merged.append(elem[0])
            if len(coords[elem[1]]) == 0:
                continue
            new = (coords[elem[1]].pop(), elem[1])
            j = bisect.bisect_right(head, new)
            compares += len(head) - j + 1
            head.insert(j, new)
''','''
            coord, source = head.pop()
            merged.append(coord)
            if coords[source]:
                new = (coords[source].pop(), source)
                j = bisect.bisect_right(head, new)
                compares += len(head) - j + 1
                head.insert(j, new)
'''))
R('mg-len','Compute._merge',('''
            merged = [c for list_ in coords for c in list_]
            merged.sort()
            return''','''
            merged = []
            for list_ in coords:
                merged.extend(list_)
            merged.sort()
            return'''))
F('model/format.py')
R('cf-in','Format._checkFillSpec',('''
        if 'root' not in self.spec.keys():
            self.spec['root'] = {}
        self''','''
        if 'root' not in self.spec:
            self.spec['root'] = {}
        self'''),('''
        ranks = self.tensor.getRankIds()
        for rank in ranks:
            if rank not in self.spec.keys():
                self.spec[rank] = {}
''','''
        for rank in self.tensor.getRankIds():
            self.spec.setdefault(rank, {})
'''))
R('cf-loop','Format._checkFillSpec',('''
            self._checkFillIntField(rank, 'rhbits')
            self._checkFillIntField(rank, 'fhbits')
            self._checkFillIntField(rank, 'cbits')
            self._checkFillIntField(rank, 'pbits')
''','''
            for field in ('rhbits', 'fhbits', 'cbits', 'pbits'):
                self._checkFillIntField(rank, field)
'''))
R('cf-setd','Format._checkFillIntField',('''
        if field not in self.spec[rank].keys():
            self.spec[rank][field] = 0
        assert isinstance(self.spec[rank][field], int)
''','''
        value = self.spec[rank].setdefault(field, 0)
        assert isinstance(value, int)
'''))
R('cf-loc','Format._checkFillIntField',('''
        if field not in self.spec[rank].keys():
            self.spec[rank][field] = 0
        assert isinstance(self.spec[rank][field], int)
''','''
        rank_spec = self.spec[rank]
        if field not in rank_spec:
            rank_spec[field] = 0
        assert isinstance(rank_spec[field], int)
'''))
R('cf-opt','Format._checkFillStrField',('''
        assert any((self.spec[rank][field] == val for val in options))
''','''
        assert self.spec[rank][field] in options
'''))
R('ge-get','Format.getElem',('''
        if type_ == 'coord':
            return self.spec[rank]['cbits']
        elif type_ == 'payload':
            return self.spec[rank]['pbits']
        elif type_ == 'elem':
            return self.spec[rank]['cbits'] + self.spec[rank]['pbits']
        assert False
''','''
        if type_ == 'coord':
            return self.getCBits(rank)
        if type_ == 'payload':
            return self.getPBits(rank)
        assert type_ == 'elem'
        return self.getCBits(rank) + self.getPBits(rank)
'''))
R('ge-sum','Format.getElem',('''
        if type_ == 'coord':
            return self.spec[rank]['cbits']
        elif type_ == 'payload':
            return self.spec[rank]['pbits']
        elif type_ == 'elem':
            return self.spec[rank]['cbits'] + self.spec[rank]['pbits']
        assert False
''','''
        assert type_ in ('coord', 'payload', 'elem')
        bits = 0
        if type_ != 'payload':
            bits += self.spec[rank]['cbits']
        if type_ != 'coord':
            bits += self.spec[rank]['pbits']
        return bits
'''))
R('gr-sum','Format.getRank',('''
        i = self.tensor.getRankIds().index(rank_id)
        rank = self.tensor.ranks[i]
        total = self.spec[rank_id]['rhbits']
        for fiber in rank.getFibers():
            total += self._getFiberFootprint(rank_id, fiber)
        return total
''','''
        rank = self.tensor.ranks[self.tensor.getRankIds().index(rank_id)]
        return self.getRHBits(rank_id) + sum(self._getFiberFootprint(rank_id, fiber) for fiber in rank.getFibers())
'''))
R('gs-last','Format.getSubTree',('''
        if len(coords) == len(self.tensor.getRankIds()):
            return self.spec[self.tensor.getRankIds()[-1]]['cbits'] + self.spec[self.tensor.getRankIds()[-1]]['pbits']
''','''
        rank_ids = self.tensor.getRankIds()
        if len(coords) == len(rank_ids):
            return self.getElem(rank_ids[-1], 'elem')
'''))
R('gs-while','Format.getSubTree',('''
        while len(fibers) > 0:
''','''
        while fibers:
'''),('''
            if self.spec[rank]['format'] == 'U':
                iter_ = fiber.iterShape()
            else:
                iter_ = fiber.iterOccupancy()
            for _, payload in iter_:
                if isinstance(payload, Fiber):
                    fibers.append(payload)
''','''
            is_uncompressed = self.getFormat(rank) == 'U'
            elements = fiber.iterShape() if is_uncompressed else fiber.iterOccupancy()
            fibers.extend(payload for _, payload in elements if isinstance(payload, Fiber))
'''))
R('gs-two','Format.getSubTree',('''
            if self.spec[rank]['format'] == 'U':
                iter_ = fiber.iterShape()
            else:
                iter_ = fiber.iterOccupancy()
            for _, payload in iter_:
                if isinstance(payload, Fiber):
                    fibers.append(payload)
''','''
            if self.spec[rank]['format'] == 'U':
                for _, payload in fiber.iterShape():
                    if isinstance(payload, Fiber):
                        fibers.append(payload)
            else:
                for _, payload in fiber.iterOccupancy():
                    if isinstance(payload, Fiber):
                        fibers.append(payload)
'''))
R('gt-sum','Format.getTensor',('''
        total = self.getRoot()
        for rank in self.tensor.getRankIds():
            total += self.getRank(rank)
        return total
''','''
        return self.getRoot() + sum(self.getRank(rank) for rank in self.tensor.getRankIds())
'''))
R('fc-tern','Format._getFiberFromCoords',('''
        if len(coords) == 0:
            fiber = self.tensor.getRoot()
        else:
            fiber = self.tensor.getPayload(*coords)
''','''
        fiber = self.tensor.getPayload(*coords) if coords else self.tensor.getRoot()
'''))
R('ff-elem','Format._getFiberFootprint',('''
        return self.spec[rank]['fhbits'] + self.spec[rank]['pbits'] * num_elems + self.spec[rank]['cbits'] * num_elems
''','''
        return self.getFHBits(rank) + num_elems * self.getElem(rank, 'elem')
'''))
R('ff-helper','Format._getFiberFootprint',('''
        if self.spec[rank]['format'] == 'C':
            num_elems = len(fiber)
        else:
            num_elems = fiber.getShape(all_ranks=False)
        return self.spec[rank]['fhbits'] + self.spec[rank]['pbits'] * num_elems + self.spec[rank]['cbits'] * num_elems
''','''
        rank_spec = self.spec[rank]
        num_elems = self._numStored(rank_spec['format'], fiber)
        return rank_spec['fhbits'] + num_elems * (rank_spec['cbits'] + rank_spec['pbits'])

    def _numStored(self, fmt, fiber):
        if fmt != 'C':
            return fiber.getShape(all_ranks=False)
        return len(fiber)
'''))
F('core/rank.py')
R('ri-while','Rank.getRankIds',('''
        rankids = [self.getId()]
        if all_ranks and self.next_rank is not None:
            rankids.extend(self.next_rank.getRankIds(all_ranks=True))
        return rankids
''','''
        if not all_ranks or self.next_rank is None:
            return [self.getId()]
        return [self.getId()] + self.next_rank.getRankIds(all_ranks=True)
'''))
R('gsh-early','Rank.getShape',('''
        if all_ranks == False:
            if authoritative and self._attrs.getEstimatedShape():
                return None
            if self._attrs.getShape() == 0:
                return max([f.estimateShape(all_ranks=False) for f in self.fibers])
            return self._attrs.getShape()
        if authoritative and self._attrs.getEstimatedShape():
            return None
        if self._attrs.getShape() is not None:
            shape = [self._attrs.getShape()]
''','''
        if authoritative and self._attrs.getEstimatedShape():
            return None
        my_shape = self._attrs.getShape()
        if not all_ranks:
            if my_shape == 0:
                return max([f.estimateShape(all_ranks=False) for f in self.fibers])
            return my_shape
        if my_shape is not None:
            shape = [my_shape]
'''))
R('gsh-est','Rank.getShape',('''
            if self._attrs.getShape() == 0:
                return max([f.estimateShape(all_ranks=False) for f in self.fibers])
''','''
            if self._attrs.getShape() == 0:
                return self._estimate()
'''),('''
            shape = [max([f.estimateShape(all_ranks=False) for f in self.fibers])]
''','''
            shape = [self._estimate()]
'''),('''
            shape.extend(rest_of_shape)
        return shape
''','''
            shape.extend(rest_of_shape)
        return shape

    def _estimate(self):
        return max((fiber.estimateShape(all_ranks=False) for fiber in self.fibers))
'''))
R('gsh-next','Rank.getShape',('''
        if self.next_rank is not None:
            rest_of_shape = self.next_rank.getShape(all_ranks=True, authoritative=authoritative)
            if rest_of_shape is None:
                return None
            shape.extend(rest_of_shape)
        return shape
''','''
        if self.next_rank is None:
            return shape
        rest_of_shape = self.next_rank.getShape(all_ranks=True, authoritative=authoritative)
        return None if rest_of_shape is None else shape + rest_of_shape
'''))
R('ap-shape','Rank.append',('''
            old = self._attrs.getShape()
            new = fiber.getShape(all_ranks=False)
            if old is None and new != 0:
                self._attrs.setShape(new)
            elif new != 0:
                self._attrs.setShape(max(old, new))
''','''
            old = self._attrs.getShape()
            new = fiber.getShape(all_ranks=False)
            if new != 0:
                self._attrs.setShape(new if old is None else max(old, new))
'''))
R('ap-helper','Rank.append',('''
        if self._attrs.getEstimatedShape():
            fiber.setOwner(None)
            old = self._attrs.getShape()
            new = fiber.getShape(all_ranks=False)
            if old is None and new != 0:
                self._attrs.setShape(new)
            elif new != 0:
                self._attrs.setShape(max(old, new))
        fiber.setOwner(self)
''','''
        if self._attrs.getEstimatedShape():
            fiber.setOwner(None)
            self._growShape(fiber.getShape(all_ranks=False))
        fiber.setOwner(self)
'''),('''
        self.fibers.append(fiber)
''','''
        self.fibers.append(fiber)

    def _growShape(self, new):
        if new == 0:
            return
        old = self._attrs.getShape()
        if old is not None:
            new = max(old, new)
        self._attrs.setShape(new)
'''))
R('ap-assert','Rank.append',('''
        default = self.getDefault()
        if self.next_rank is None:
            assert not (type(default) is type and issubclass(default, Fiber)), 'Leaf rank default should not be Fiber'
        else:
            assert issubclass(default, Fiber), 'Non-leaf rank default should be Fiber (or Fiber subclass)'
        self.fibers.append(fiber)
''','''
        is_leaf = self.next_rank is None
        default = self.getDefault()
        if not is_leaf:
            assert issubclass(default, Fiber), 'Interior rank default should be Fiber'
        else:
            assert not (type(default) is type and issubclass(default, Fiber)), 'Leaf rank default should not be Fiber'
        self.fibers.append(fiber)
'''))
R('rm-order','Rank.remove',('''
        self.fibers = [f for f in self.fibers if f is not fiber]
        fiber.setOwner(None)
''','''
        remaining = []
        for f in self.fibers:
            if f is fiber:
                continue
            remaining.append(f)
        self.fibers = remaining
        fiber.setOwner(None)
'''))
R('snr-tern','Rank.setNextRank',('''
        if next_rank is None:
            self.setDefault(0)
        else:
            self.setDefault(Fiber)
''','''
        self.setDefault(0 if next_rank is None else Fiber)
'''))
R('init-order','Rank.__init__',('''
        self._attrs = RankAttrs(id, shape, fmt)
        self.setNextRank(next_rank)
        self.fibers = []
''','''
        self.fibers = []
        self._attrs = RankAttrs(id, shape=shape, fmt=fmt)
        self.setNextRank(next_rank)
'''))
R('cl-clear','Rank.getId',('''
        return self._attrs.getId()
''','''
        return self.getAttrs().getId()
'''))
