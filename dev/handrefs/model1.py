F('core/metrics.py')
R('au-index','Metrics',('''
        assert rank in cls.line_order or rank in cls.rank_matches
        if isinstance(coord, tuple):
            coord = cls.rank_flatten[rank](coord)
        if rank in cls.line_order:
            i = cls.line_order[rank]
            cls.point[i] = coord
        else:
            i = cls.line_order[cls.rank_matches[rank]]
''','''
        if isinstance(coord, tuple):
            coord = cls.rank_flatten[rank](coord)
        i = cls.getIndex(rank)
        if rank in cls.line_order:
            cls.point[i] = coord
'''))
R('au-helper','Metrics',('''
        assert cls.collecting
        assert rank in cls.line_order or rank in cls.rank_matches
        if rank in cls.line_order:
            return cls.line_order[rank]
        else:
            return cls.line_order[cls.rank_matches[rank]]
''','''
        assert cls.collecting
        assert rank in cls.line_order or rank in cls.rank_matches
        return cls._lineIndex(rank)

    @classmethod
    def _lineIndex(cls, rank):
        if rank not in cls.line_order:
            rank = cls.rank_matches[rank]
        return cls.line_order[rank]
'''),('''
        if line in cls.line_order.keys():
            cls.iteration[cls.line_order[line]] += 1
        else:
            cls.iteration[cls.line_order[cls.rank_matches[line]]] += 1
''','''
        cls.iteration[cls._lineIndex(line)] += 1
'''),('''
        if rank in cls.line_order:
            cls.iteration[cls.line_order[rank]] = 0
        else:
            cls.iteration[cls.line_order[cls.rank_matches[rank]]] = 0
''','''
        cls.iteration[cls._lineIndex(rank)] = 0
'''),('''
        if rank in cls.line_order:
            end = cls.line_order[rank] + 1
        else:
            end = cls.line_order[cls.rank_matches[rank]] + 1
''','''
        end = cls._lineIndex(rank) + 1
'''))
R('au-traced','Metrics.addUse',('''
        if rank not in cls.traces.keys():
            return
        if type_ not in cls.traces[rank].keys():
            return
''','''
        if not cls.isTraced(rank, type_):
            return
'''))
R('au-get','Metrics.addUse',('''
        if rank not in cls.traces.keys():
            return
        if type_ not in cls.traces[rank].keys():
            return
''','''
        rank_traces = cls.traces.get(rank)
        if rank_traces is None or type_ not in rank_traces:
            return
'''),('''
        file_trace, mem_trace, _ = cls.traces[rank][type_]
''','''
        file_trace, mem_trace, _ = rank_traces[type_]
'''))
R('au-nest','Metrics.addUse',('''
        if file_trace is not None:
            file_trace.append(data)
        if mem_trace is not None:
            mem_trace.append(data)
        if file_trace is not None and len(file_trace) == cls.num_cached_uses:
            cls._writeTrace(rank, type_)
''','''
        if mem_trace is not None:
            mem_trace.append(data)
        if file_trace is None:
            return
        file_trace.append(data)
        if len(file_trace) == cls.num_cached_uses:
            cls._writeTrace(rank, type_)
'''))
R('au-data','Metrics.addUse',('''
        if iteration_num is None:
            iteration_num = cls.iteration
        iteration = iteration_num[:i + 1]
        point = cls.point[:i] + [coord]
        data = iteration + point + [pos]
''','''
        stamp = cls.iteration if iteration_num is None else iteration_num
        data = stamp[:i + 1] + cls.point[:i] + [coord, pos]
'''))
R('au-star','Metrics.addUse',('''
        iteration = iteration_num[:i + 1]
        point = cls.point[:i] + [coord]
        data = iteration + point + [pos]
''','''
        data = [*iteration_num[:i + 1], *cls.point[:i], coord, pos]
'''))
R('au-loop','Metrics.addUse',('''
        if file_trace is not None:
            file_trace.append(data)
        if mem_trace is not None:
            mem_trace.append(data)
''','''
        for buffer in (file_trace, mem_trace):
            if buffer is not None:
                buffer.append(data)
'''))
R('as-nested','Metrics.associateShape',('''
            final = 0
            for i, coord in enumerate(coords):
                final += coord * reduce(lambda x, y: x * y, shape[i + 1:], 1)
            return final
''','''
            return sum(coord * reduce(lambda x, y: x * y, shape[i + 1:], 1) for i, coord in enumerate(coords))
'''))
R('as-loop','Metrics.associateShape',('''
            final = 0
            for i, coord in enumerate(coords):
                final += coord * reduce(lambda x, y: x * y, shape[i + 1:], 1)
            return final
''','''
            final = 0
            for i in range(len(coords)):
                stride = 1
                for extent in shape[i + 1:]:
                    stride *= extent
                final += coords[i] * stride
            return final
'''))
R('bc-order','Metrics.beginCollect',('''
        cls.all_rank_matches = {}
        cls.collecting = True
        cls.fiber_label = {}
        cls.iteration = []
''','''
        cls.collecting = True
        cls.iteration = []
        cls.fiber_label = {}
        cls.all_rank_matches = {}
'''))
R('be-helper','Metrics',('''
        cls.all_rank_matches = {}
        cls.collecting = True
        cls.fiber_label = {}
        cls.iteration = []
        cls.line_order = {}
        cls.loop_order = []
        cls.metrics = {}
        cls.point = []
        cls.prefix = prefix
        cls.rank_matches = {}
        cls.rank_flatten = {}
        cls.traces = {}
''','''
        cls._resetRanks()
        cls.collecting = True
        cls.iteration = []
        cls.line_order = {}
        cls.loop_order = []
        cls.metrics = {}
        cls.point = []
        cls.prefix = prefix

    @classmethod
    def _resetRanks(cls):
        cls.all_rank_matches = {}
        cls.fiber_label = {}
        cls.rank_matches = {}
        cls.rank_flatten = {}
        cls.traces = {}
'''))
R('ec-split','Metrics.endCollect',('''
        for rank, dicts in cls.traces.items():
            for type_, (file_trace, mem_trace, _) in dicts.items():
                if file_trace is not None:
                    cls._writeTrace(rank, type_)
                if mem_trace is not None:
                    assert len(mem_trace) == 0
''','''
        for rank in cls.traces:
            for type_ in cls.traces[rank]:
                file_trace, mem_trace, _ = cls.traces[rank][type_]
                if file_trace is not None:
                    cls._writeTrace(rank, type_)
                assert mem_trace is None or len(mem_trace) == 0
'''))
R('ec-helper','Metrics',('''
        for rank, dicts in cls.traces.items():
            for type_, (file_trace, mem_trace, _) in dicts.items():
                if file_trace is not None:
                    cls._writeTrace(rank, type_)
                if mem_trace is not None:
                    assert len(mem_trace) == 0
        cls.collecting = False
''','''
        cls._flush()
        cls.collecting = False
'''),('''
    @classmethod
    def getIter(cls):
''','''
    @classmethod
    def _flush(cls):
        for rank, dicts in cls.traces.items():
            for type_, trace in dicts.items():
                if trace[0] is not None:
                    cls._writeTrace(rank, type_)
                if trace[1] is not None:
                    assert len(trace[1]) == 0

    @classmethod
    def getIter(cls):
'''))
R('gl-if','Metrics.getLabel',('''
        if rank in cls.line_order:
            iter_rank = rank
        elif rank in cls.rank_matches:
            iter_rank = cls.rank_matches[rank]
        elif rank in cls.fiber_label:
            iter_rank = rank
        else:
            cls.fiber_label[rank] = 0
            iter_rank = rank
        cls.fiber_label[iter_rank] += 1
        return cls.fiber_label[iter_rank] - 1
''','''
        iter_rank = rank
        if rank not in cls.line_order:
            if rank in cls.rank_matches:
                iter_rank = cls.rank_matches[rank]
            elif rank not in cls.fiber_label:
                cls.fiber_label[rank] = 0
        label = cls.fiber_label[iter_rank]
        cls.fiber_label[iter_rank] = label + 1
        return label
'''))
R('gl-default','Metrics.getLabel',('''
        elif rank in cls.fiber_label:
            iter_rank = rank
        else:
            cls.fiber_label[rank] = 0
            iter_rank = rank
''','''
        else:
            cls.fiber_label.setdefault(rank, 0)
            iter_rank = rank
'''))
R('ic-default','Metrics.incCount',('''
        line = line.strip()
        if line not in cls.metrics:
            cls.metrics[line] = {}
        if metric not in cls.metrics[line]:
            cls.metrics[line][metric] = 0
        cls.metrics[line][metric] += inc
''','''
        counts = cls.metrics.setdefault(line.strip(), {})
        counts[metric] = counts.get(metric, 0) + inc
'''))
R('ic-local','Metrics.incCount',('''
        if line not in cls.metrics:
            cls.metrics[line] = {}
        if metric not in cls.metrics[line]:
            cls.metrics[line][metric] = 0
        cls.metrics[line][metric] += inc
''','''
        if line not in cls.metrics:
            cls.metrics[line] = {}
        counts = cls.metrics[line]
        if metric not in counts:
            counts[metric] = 0
        counts[metric] += inc
'''))
R('ic-else','Metrics.incCount',('''
        if metric not in cls.metrics[line]:
            cls.metrics[line][metric] = 0
        cls.metrics[line][metric] += inc
''','''
        if metric in cls.metrics[line]:
            cls.metrics[line][metric] += inc
        else:
            cls.metrics[line][metric] = inc
'''))
R('gi-tern','Metrics.getIndex',('''
        if rank in cls.line_order:
            return cls.line_order[rank]
        else:
            return cls.line_order[cls.rank_matches[rank]]
''','''
        loop_rank = rank if rank in cls.line_order else cls.rank_matches[rank]
        return cls.line_order[loop_rank]
'''))
R('mr-loop','Metrics.matchRanks',('''
        if rank1 not in cls.all_rank_matches:
            cls.all_rank_matches[rank1] = set()
        if rank2 not in cls.all_rank_matches:
            cls.all_rank_matches[rank2] = set()
''','''
        for rank in (rank1, rank2):
            if rank not in cls.all_rank_matches:
                cls.all_rank_matches[rank] = set()
'''))
R('mr-set','Metrics.matchRanks',('''
        all_matches = cls.all_rank_matches[rank1].union(cls.all_rank_matches[rank2])
        all_matches.add(rank1)
        all_matches.add(rank2)
''','''
        all_matches = cls.all_rank_matches[rank1] | cls.all_rank_matches[rank2] | {rank1, rank2}
'''),('''
all_matches.difference({rank})
''','''
all_matches - {rank}
'''))
R('rr-guard','Metrics.registerRank',('''
        cls.iteration.append(0)
        cls.line_order[rank] = len(cls.iteration) - 1
''','''
        cls.line_order[rank] = len(cls.iteration)
        cls.iteration.append(0)
'''))
R('rr-helper','Metrics',('''
        if rank in cls.traces.keys():
            for type_ in cls.traces[rank]:
                cls._startTrace(rank, type_)
        for src_rank, dst_ranks in cls.all_rank_matches.items():
            if rank not in dst_ranks:
                continue
            cls.rank_matches[src_rank] = rank
            if src_rank in cls.traces.keys():
                for type_ in cls.traces[src_rank]:
                    cls._startTrace(src_rank, type_)
''','''
        cls._startTraces(rank)
        for src_rank, dst_ranks in cls.all_rank_matches.items():
            if rank in dst_ranks:
                cls.rank_matches[src_rank] = rank
                cls._startTraces(src_rank)

    @classmethod
    def _startTraces(cls, rank):
        if rank not in cls.traces:
            return
        for type_ in cls.traces[rank]:
            cls._startTrace(rank, type_)
'''))
R('rr-get','Metrics.registerRank',('''
        if rank in cls.traces.keys():
            for type_ in cls.traces[rank]:
                cls._startTrace(rank, type_)
''','''
        for type_ in cls.traces.get(rank, ()):
            cls._startTrace(rank, type_)
'''))
R('st-name','Metrics',('''
            with open(cls.prefix + '-' + rank + '-' + type_ + '.csv', 'w') as f:
                f.write('')
''','''
            with open(cls._traceName(rank, type_), 'w') as f:
                f.write('')
'''),('''
        with open(cls.prefix + '-' + rank + '-' + type_ + '.csv', 'a') as f:
''','''
        with open(cls._traceName(rank, type_), 'a') as f:
'''),('''
    @classmethod
    def _startTrace(''','''
    @classmethod
    def _traceName(cls, rank, type_):
        return cls.prefix + '-' + rank + '-' + type_ + '.csv'

    @classmethod
    def _startTrace('''))
R('st-fname','Metrics',('''
            with open(cls.prefix + '-' + rank + '-' + type_ + '.csv', 'w') as f:
                f.write('')
''','''
            with open(f'{cls.prefix}-{rank}-{type_}.csv', 'w') as f:
                f.write('')
'''))
R('st-dead','Metrics._startTrace',('''
        pos = ','.join((r + '_pos' for r in cls.loop_order[:end]))
        coord = ','.join((r for r in cls.loop_order[:end]))
        headings = [pos, coord, 'fiber_pos']
        headings = list((r + '_pos' for r in cls.loop_order[:end])) + cls.loop_order[:end] + ['fiber_pos']
''','''
        ranks = cls.loop_order[:end]
        headings = [r + '_pos' for r in ranks] + ranks + ['fiber_pos']
'''))
R('st-loop','Metrics._startTrace',('''
        headings = list((r + '_pos' for r in cls.loop_order[:end])) + cls.loop_order[:end] + ['fiber_pos']
''','''
        headings = []
        for r in cls.loop_order[:end]:
            headings.append(r + '_pos')
        headings += cls.loop_order[:end]
        headings.append('fiber_pos')
'''))
R('st-once','Metrics._startTrace',('''
        if file_trace is not None:
            with open(cls.prefix + '-' + rank + '-' + type_ + '.csv', 'w') as f:
                f.write('')
''',''),('''
        if file_trace is not None:
            file_trace.append(headings)
''','''
        if file_trace is not None:
            with open(cls.prefix + '-' + rank + '-' + type_ + '.csv', 'w') as f:
                f.write('')
            file_trace.append(headings)
'''))
R('tr-setdef','Metrics.trace',('''
        if rank not in cls.traces.keys():
            cls.traces[rank] = {}
        if type_ not in cls.traces[rank].keys():
            cls.traces[rank][type_] = (None, None, False)
        file_trace, mem_trace, is_started = cls.traces[rank][type_]
        if consumable:
            cls.traces[rank][type_] = (file_trace, [], is_started)
        else:
            cls.traces[rank][type_] = ([], mem_trace, is_started)
''','''
        if rank not in cls.traces:
            cls.traces[rank] = {}
        file_trace, mem_trace, is_started = cls.traces[rank].get(type_, (None, None, False))
        if consumable:
            mem_trace = []
        else:
            file_trace = []
        cls.traces[rank][type_] = (file_trace, mem_trace, is_started)
'''))
R('tr-entry','Metrics.trace',('''
        if consumable:
            cls.traces[rank][type_] = (file_trace, [], is_started)
        else:
            cls.traces[rank][type_] = ([], mem_trace, is_started)
''','''
        entry = (file_trace, [], is_started) if consumable else ([], mem_trace, is_started)
        cls.traces[rank][type_] = entry
'''))
R('wt-loop','Metrics._writeTrace',('''
        trace_strs = [','.join((str(val) for val in line)) + '\\n' for line in file_trace]
        with open(cls.prefix + '-' + rank + '-' + type_ + '.csv', 'a') as f:
            f.write(''.join(trace_strs))
''','''
        trace_strs = []
        for line in file_trace:
            trace_strs.append(','.join(map(str, line)) + '\\n')
        with open(cls.prefix + '-' + rank + '-' + type_ + '.csv', 'a') as f:
            f.write(''.join(trace_strs))
'''))
R('wt-order','Metrics._writeTrace',('''
        trace_strs = [','.join((str(val) for val in line)) + '\\n' for line in file_trace]
        with open(cls.prefix + '-' + rank + '-' + type_ + '.csv', 'a') as f:
            f.write(''.join(trace_strs))
        cls.traces[rank][type_] = ([], mem_trace, True)
''','''
        cls.traces[rank][type_] = ([], mem_trace, True)
        file_name = cls.prefix + '-' + rank + '-' + type_ + '.csv'
        with open(file_name, 'a') as f:
            f.write(''.join(','.join(str(val) for val in line) + '\\n' for line in file_trace))
'''))
R('ct-index','Metrics.consumeTrace',('''
        file_trace, mem_trace, is_started = cls.traces[rank][type_]
        assert mem_trace is not None
        cls.traces[rank][type_] = (file_trace, [], is_started)
        return mem_trace
''','''
        rank_traces = cls.traces[rank]
        file_trace, rows, is_started = rank_traces[type_]
        assert rows is not None
        rank_traces[type_] = (file_trace, [], is_started)
        return rows
'''))
F('model/traffic.py')
R('ft-helper','Traffic.filterTrace',('''
        with open(input_fn, 'r') as f_in, open(filter_fn, 'r') as f_fil, open(output_fn, 'w') as f_out:
            f_out.write(f_in.readline())
            f_fil.readline()
            line_in = f_in.readline()
            line_fil = f_fil.readline()
            data_in = get_data(line_in)
            data_fil = get_data(line_fil)[:len(data_in)]
            while line_in and line_fil:
                if data_in == data_fil:
                    f_out.write(line_in)
                    line_in = f_in.readline()
                    line_fil = f_fil.readline()
                    data_in = get_data(line_in)
                    data_fil = get_data(line_fil)[:len(data_in)]
                elif data_in < data_fil:
                    line_in = f_in.readline()
                    data_in = get_data(line_in)
                else:
                    line_fil = f_fil.readline()
                    data_fil = get_data(line_fil)[:len(data_in)]
''','''
        def next_in(f):
            line = f.readline()
            return line, get_data(line)

        def next_fil(f, n):
            line = f.readline()
            return line, get_data(line)[:n]

        with open(input_fn, 'r') as f_in, open(filter_fn, 'r') as f_fil, open(output_fn, 'w') as f_out:
            f_out.write(f_in.readline())
            f_fil.readline()
            line_in, data_in = next_in(f_in)
            line_fil, data_fil = next_fil(f_fil, len(data_in))
            while line_in and line_fil:
                if data_in == data_fil:
                    f_out.write(line_in)
                    line_in, data_in = next_in(f_in)
                    line_fil, data_fil = next_fil(f_fil, len(data_in))
                elif data_in < data_fil:
                    line_in, data_in = next_in(f_in)
                else:
                    line_fil, data_fil = next_fil(f_fil, len(data_in))
'''))
R('ft-getdata','Traffic.filterTrace',('''
            if line:
                full = line[:-1].split(',')[:-1]
                return tuple((int(val) for val in full[len(full) // 2:]))
            return ()
''','''
            if not line:
                return ()
            fields = line[:-1].split(',')[:-1]
            half = len(fields) // 2
            return tuple(map(int, fields[half:]))
'''))
R('ft-loop','Traffic.filterTrace',('''
            while line_in and line_fil:
                if data_in == data_fil:
                    f_out.write(line_in)
                    line_in = f_in.readline()
                    line_fil = f_fil.readline()
                    data_in = get_data(line_in)
                    data_fil = get_data(line_fil)[:len(data_in)]
                elif data_in < data_fil:
                    line_in = f_in.readline()
                    data_in = get_data(line_in)
                else:
                    line_fil = f_fil.readline()
                    data_fil = get_data(line_fil)[:len(data_in)]
''','''
            while line_in and line_fil:
                if data_in < data_fil:
                    line_in = f_in.readline()
                    data_in = get_data(line_in)
                    continue
                if data_in == data_fil:
                    f_out.write(line_in)
                    line_in = f_in.readline()
                    data_in = get_data(line_in)
                line_fil = f_fil.readline()
                data_fil = get_data(line_fil)[:len(data_in)]
'''))
R('cm-helper','Traffic._combineTraces',('''
            head = None
            f_read = None
            f_write = None
            if read_fn is not None:
                f_read = open(read_fn, 'r')
                head = f_read.readline()
                read_line = next_line(f_read)
            else:
                read_line = ((float('inf'),), '')
            if write_fn is not None:
                f_write = open(write_fn, 'r')
                head = f_write.readline()
                write_line = next_line(f_write)
            else:
                write_line = ((float('inf'),), '')
''','''
            head = None
            f_read = None
            f_write = None
            read_line = ((float('inf'),), '')
            write_line = ((float('inf'),), '')
            if read_fn is not None:
                f_read = open(read_fn, 'r')
                head = f_read.readline()
                read_line = next_line(f_read)
            if write_fn is not None:
                f_write = open(write_fn, 'r')
                head = f_write.readline()
                write_line = next_line(f_write)
'''))
R('cm-open','Traffic._combineTraces',('''
            head = None
            f_read = None
            f_write = None
            if read_fn is not None:
                f_read = open(read_fn, 'r')
                head = f_read.readline()
                read_line = next_line(f_read)
            else:
                read_line = ((float('inf'),), '')
            if write_fn is not None:
                f_write = open(write_fn, 'r')
                head = f_write.readline()
                write_line = next_line(f_write)
            else:
                write_line = ((float('inf'),), '')
''','''
            head = None

            def start(fn, head):
                if fn is None:
                    return None, head, ((float('inf'),), '')
                f = open(fn, 'r')
                head = f.readline()
                return f, head, next_line(f)
            f_read, head, read_line = start(read_fn, head)
            f_write, head, write_line = start(write_fn, head)
'''))
R('cm-loop','Traffic._combineTraces',('''
                if write_line[0] < read_line[0]:
                    f_comb.write(write_line[1][:-1] + ',True\\n')
                    write_line = next_line(f_write)
                else:
                    f_comb.write(read_line[1][:-1] + ',False\\n')
                    read_line = next_line(f_read)
''','''
                is_write = write_line[0] < read_line[0]
                line = write_line[1] if is_write else read_line[1]
                f_comb.write(line[:-1] + ',' + str(is_write) + '\\n')
                if is_write:
                    write_line = next_line(f_write)
                else:
                    read_line = next_line(f_read)
'''))
R('cm-next','Traffic._combineTraces',('''
            line = f.readline()
            if line:
                split = line[:-1].split(',')
                return (tuple((int(val) for val in split[:len(split) // 2])), line)
            else:
                return ((float('inf'),), line)
''','''
            line = f.readline()
            if not line:
                return ((float('inf'),), line)
            split = line[:-1].split(',')
            stamp = tuple([int(val) for val in split[:len(split) // 2]])
            return (stamp, line)
'''))
R('bp-expr','Traffic._buildPoint',('''
        point = list(itertools.compress(split[(len(split) - 2) // 2:-2], mask))
        point[-1] = str(int(split[-2]) // elems_per_line * elems_per_line)
        return tuple(point)
''','''
        start = (len(split) - 2) // 2
        line_start = int(split[-2]) // elems_per_line * elems_per_line
        point = list(itertools.compress(split[start:-2], mask))
        point[-1] = str(line_start)
        return tuple(point)
'''))
R('bp-comp','Traffic._buildPoint',('''
        point = list(itertools.compress(split[(len(split) - 2) // 2:-2], mask))
''','''
        coords = split[(len(split) - 2) // 2:-2]
        point = [c for c, keep in zip(coords, mask) if keep]
'''))
R('nu-clean','Traffic._buildNextUseTrace',('''
                line_split = line.split(',')
                if point in last_points:
                    last_split = last_points[point].split(',')
                    new_csv = line + ',' + last_points[point]
                else:
                    new_csv = line + ',' + ','.join(('None' for _ in split))
                f_out.write(new_csv + '\\n')
                last_points[point] = line
''','''
                if point in last_points:
                    next_use = last_points[point]
                else:
                    next_use = ','.join(['None'] * len(split))
                f_out.write(line + ',' + next_use + '\\n')
                last_points[point] = line
'''))
R('nu-head','Traffic._buildNextUseTrace',('''
            iter_ranks = head_in[(len(head_in) - 2) // 2:-2]
            mask = [rank in ranks for rank in iter_ranks]
''','''
            start = (len(head_in) - 2) // 2
            mask = []
            for rank in head_in[start:-2]:
                mask.append(rank in ranks)
'''),('''
            head_out = ','.join(head_in + [val + '_next' for val in head_in])
            f_out.write(head_out + '\\n')
''','''
            next_head = [val + '_next' for val in head_in]
            f_out.write(','.join(head_in + next_head) + '\\n')
'''))
R('nu-get','Traffic._buildNextUseTrace',('''
                if point in last_points:
                    last_split = last_points[point].split(',')
                    new_csv = line + ',' + last_points[point]
                else:
                    new_csv = line + ',' + ','.join(('None' for _ in split))
                f_out.write(new_csv + '\\n')
''','''
                none = ','.join('None' for _ in split)
                f_out.write(line + ',' + last_points.get(point, none) + '\\n')
'''))
R('bu-pre','Traffic.buffetTraffic',('''
            drain_info = {}
            ready_to_drain = {}
            for tensor, rank, type_, _ in bind_info:
                drain_info[tensor, rank, type_] = [0, 0]
                ready_to_drain[tensor, rank, type_] = {}
            return (drain_info, ready_to_drain)
''','''
            drain_info = {info[:3]: [0, 0] for info in bind_info}
            ready_to_drain = {info[:3]: {} for info in bind_info}
            return (drain_info, ready_to_drain)
'''))
R('bu-pre2','Traffic.buffetTraffic',('''
            for tensor, rank, type_, _ in bind_info:
                drain_info[tensor, rank, type_] = [0, 0]
                ready_to_drain[tensor, rank, type_] = {}
''','''
            for tensor, rank, type_, _ in bind_info:
                key = (tensor, rank, type_)
                drain_info[key] = [0, 0]
                ready_to_drain[key] = {}
'''))
R('bu-tbb','Traffic.buffetTraffic',('''
            if evict_on == 'root':
                evict_end = 0
            else:
                evict_end = order.index(loop_ranks[evict_on]) + 1
            curr_stamp = trace[:evict_end]
            next_stamp = trace[num_ranks * 2 + 2:num_ranks * 2 + 2 + evict_end]
            return (curr_stamp == next_stamp and trace[num_ranks * 2 + 2] is not None, sim_info)
''','''
            next_start = 2 * num_ranks + 2
            if trace[next_start] is None:
                return (False, sim_info)
            evict_end = 0 if evict_on == 'root' else order.index(loop_ranks[evict_on]) + 1
            to_buffer = trace[:evict_end] == trace[next_start:next_start + evict_end]
            return (to_buffer, sim_info)
'''))
R('bu-add','Traffic.buffetTraffic',('''
            drain_info, ready_to_drain = sim_info
            objs[tensor][type_][obj] = [False, drain_info[key][0]]
            drain_info[key][0] += 1
            occupancy += line_sz
            if occupancy > capacity:
                overflows += 1
            sim_info = (drain_info, ready_to_drain)
            return (objs, occupancy, overflows, sim_info, traffic)
''','''
            drain_info, _ = sim_info
            counters = drain_info[key]
            objs[tensor][type_][obj] = [False, counters[0]]
            counters[0] += 1
            occupancy += line_sz
            overflows += 1 if occupancy > capacity else 0
            return (objs, occupancy, overflows, sim_info, traffic)
'''))
R('bu-evict','Traffic.buffetTraffic',('''
            drain_info, ready_to_drain = sim_info
            tensor, _, type_ = key
            ready_to_drain[key][objs[tensor][type_][obj][1]] = obj
            while drain_info[key][1] in ready_to_drain[key]:
                drain_obj = ready_to_drain[key][drain_info[key][1]]
                if objs[tensor][type_][drain_obj][0]:
                    traffic[tensor]['write'] += line_sz
                del objs[tensor][type_][drain_obj]
                del ready_to_drain[key][drain_info[key][1]]
                drain_info[key][1] += 1
                occupancy -= line_sz
            sim_info = (drain_info, ready_to_drain)
            return (objs, occupancy, sim_info, traffic)
''','''
            drain_info, ready_to_drain = sim_info
            tensor, _, type_ = key
            buffered = objs[tensor][type_]
            ready = ready_to_drain[key]
            ready[buffered[obj][1]] = obj
            while drain_info[key][1] in ready:
                drain_obj = ready.pop(drain_info[key][1])
                dirty, _ = buffered.pop(drain_obj)
                if dirty:
                    traffic[tensor]['write'] += line_sz
                drain_info[key][1] += 1
                occupancy -= line_sz
            return (objs, occupancy, sim_info, traffic)
'''))
R('bu-evict2','Traffic.buffetTraffic',('''
            tensor, _, type_ = key
            ready_to_drain[key][objs[tensor][type_][obj][1]] = obj
            while drain_info[key][1] in ready_to_drain[key]:
                drain_obj = ready_to_drain[key][drain_info[key][1]]
                if objs[tensor][type_][drain_obj][0]:
                    traffic[tensor]['write'] += line_sz
                del objs[tensor][type_][drain_obj]
                del ready_to_drain[key][drain_info[key][1]]
                drain_info[key][1] += 1
                occupancy -= line_sz
''','''
            tensor, _, type_ = key
            buffered = objs[tensor][type_]
            ready = ready_to_drain[key]
            ready[buffered[obj][1]] = obj
            while drain_info[key][1] in ready:
                head = drain_info[key][1]
                drain_obj = ready[head]
                if buffered[drain_obj][0]:
                    traffic[tensor]['write'] += line_sz
                del buffered[drain_obj]
                del ready[head]
                drain_info[key][1] = head + 1
                occupancy -= line_sz
'''))
R('bt-ranks','Traffic._bufferTraffic',('''
            loop_rank_ids[tensor] = []
            for rank in formats[tensor].tensor.getRankIds():
                new_rank = rank
                if rank in loop_ranks:
                    new_rank = loop_ranks[rank]
                loop_rank_ids[tensor].append(new_rank)
''','''
            loop_rank_ids[tensor] = [loop_ranks.get(rank, rank) for rank in formats[tensor].tensor.getRankIds()]
'''))
R('bt-ranks2','Traffic._bufferTraffic',('''
            for rank in formats[tensor].tensor.getRankIds():
                new_rank = rank
                if rank in loop_ranks:
                    new_rank = loop_ranks[rank]
                loop_rank_ids[tensor].append(new_rank)
''','''
            for rank in formats[tensor].tensor.getRankIds():
                if rank in loop_ranks:
                    loop_rank_ids[tensor].append(loop_ranks[rank])
                else:
                    loop_rank_ids[tensor].append(rank)
'''))
R('bt-comb','Traffic._bufferTraffic',('''
            key = (tensor, rank, type_)
            if key in read_write_traces:
                continue
            split_fn = os.path.splitext(fn)
            comb_fn = split_fn[0] + '-comb-' + '-'.join(key) + split_fn[1]
            args = {access + '_fn': fn, 'comb_fn': comb_fn}
            other_access = 'read' if access == 'write' else 'write'
            if key + (other_access,) in trace_fns:
                args[other_access + '_fn'] = trace_fns[key + (other_access,)]
            Traffic._combineTraces(**args)
            read_write_traces[key] = comb_fn
''','''
            key = (tensor, rank, type_)
            if key not in read_write_traces:
                base, ext = os.path.splitext(fn)
                comb_fn = base + '-comb-' + '-'.join(key) + ext
                args = {access + '_fn': fn, 'comb_fn': comb_fn}
                other_access = 'read' if access == 'write' else 'write'
                other_key = key + (other_access,)
                if other_key in trace_fns:
                    args[other_access + '_fn'] = trace_fns[other_key]
                Traffic._combineTraces(**args)
                read_write_traces[key] = comb_fn
'''))
R('bt-helper','Traffic',('''
            split_fn = os.path.splitext(fn)
            comb_fn = split_fn[0] + '-comb-' + '-'.join(key) + split_fn[1]
''','''
            comb_fn = Traffic._tempName(fn, 'comb', key)
'''),('''
            split_fn = os.path.splitext(fn)
            next_fn = split_fn[0] + '-next-' + '-'.join(key) + split_fn[1]
''','''
            next_fn = Traffic._tempName(fn, 'next', key)
'''),('''
    @staticmethod
    def _extractNext(''','''
    @staticmethod
    def _tempName(fn, stage, key):
        base, ext = os.path.splitext(fn)
        return base + '-' + stage + '-' + '-'.join(key) + ext

    @staticmethod
    def _extractNext('''))
R('bt-helper2','Traffic',('''
        next_use_traces = {}
        for key, fn in read_write_traces.items():
            tensor, rank, type_ = key
            elems_per_line = line_sz // formats[tensor].getElem(rank, type_)
            assert elems_per_line > 0
            split_fn = os.path.splitext(fn)
            next_fn = split_fn[0] + '-next-' + '-'.join(key) + split_fn[1]
            Traffic._buildNextUseTrace(loop_rank_ids[tensor], elems_per_line, fn, next_fn)
            next_use_traces[key] = next_fn
''','''
        next_use_traces = Traffic._nextUses(read_write_traces, formats, line_sz, loop_rank_ids)
'''),('''
    @staticmethod
    def _extractNext(''','''
    @staticmethod
    def _nextUses(read_write_traces, formats, line_sz, loop_rank_ids):
        result = {}
        for key, fn in read_write_traces.items():
            tensor, rank, type_ = key
            elems_per_line = line_sz // formats[tensor].getElem(rank, type_)
            assert elems_per_line > 0
            split_fn = os.path.splitext(fn)
            next_fn = split_fn[0] + '-next-' + '-'.join(key) + split_fn[1]
            Traffic._buildNextUseTrace(loop_rank_ids[tensor], elems_per_line, fn, next_fn)
            result[key] = next_fn
        return result

    @staticmethod
    def _extractNext('''))
R('bt-traces','Traffic._bufferTraffic',('''
        traces = {}
        for key, fn in next_use_traces.items():
            traces[key] = FileReadBackwards(fn)
''','''
        traces = {key: FileReadBackwards(fn) for key, fn in next_use_traces.items()}
'''),('''
        loop_rank_ids = {}
''','''
        loop_rank_ids = dict()
'''))
R('bt-masks','Traffic._bufferTraffic',('''
        masks = []
        for info in bind_info:
            tensor, rank = info[:2]
            end = order.index(loop_ranks[rank]) + 1
            masks.append(list((r in loop_rank_ids[tensor] for r in order[:end])))
        elems_per_line = []
        for info in bind_info:
            tensor, rank, type_ = info[:3]
            footprint = formats[tensor].getElem(rank, type_)
            elems_per_line.append(line_sz // footprint)
            assert elems_per_line[-1] > 0
        all_num_ranks = []
        for info in bind_info:
            all_num_ranks.append(order.index(loop_ranks[info[1]]) + 1)
''','''
        masks = []
        elems_per_line = []
        all_num_ranks = []
        for info in bind_info:
            tensor, rank, type_ = info[:3]
            end = order.index(loop_ranks[rank]) + 1
            masks.append([r in loop_rank_ids[tensor] for r in order[:end]])
            elems_per_line.append(line_sz // formats[tensor].getElem(rank, type_))
            assert elems_per_line[-1] > 0
            all_num_ranks.append(end)
'''))
R('bt-anr','Traffic._bufferTraffic',('''
        all_num_ranks = []
        for info in bind_info:
            all_num_ranks.append(order.index(loop_ranks[info[1]]) + 1)
''','''
        all_num_ranks = [order.index(loop_ranks[rank]) + 1 for _, rank, *_ in bind_info]
'''))
R('bt-anr2','Traffic._bufferTraffic',('''
        all_num_ranks = []
        for info in bind_info:
            all_num_ranks.append(order.index(loop_ranks[info[1]]) + 1)
''','''
        all_num_ranks = [order.index(loop_ranks[info[1]]) + 1 for info in bind_info]
'''))
R('bt-shapes','Traffic._bufferTraffic',('''
        for i, info in enumerate(bind_info):
            tensor, rank = info[:2]
            if pin_intermediate_writes(info):
                shape = formats[tensor].tensor.getShape(authoritative=True)
                assert shape is not None
                shapes.append(shape[formats[tensor].tensor.getRankIds().index(rank)])
            else:
                shapes.append(None)
''','''
        for info in bind_info:
            if not pin_intermediate_writes(info):
                shapes.append(None)
                continue
            tensor, rank = info[:2]
            swizzled = formats[tensor].tensor
            shape = swizzled.getShape(authoritative=True)
            assert shape is not None
            shapes.append(shape[swizzled.getRankIds().index(rank)])
'''))
R('bt-objs','Traffic._bufferTraffic',('''
        for info in bind_info:
            tensor = info[0]
            type_ = info[2]
            if tensor not in objs:
                objs[tensor] = {}
            objs[tensor][type_] = {}
''','''
        for tensor, _, type_ in (info[:3] for info in bind_info):
            objs.setdefault(tensor, {})[type_] = {}
'''))
R('bt-objs2','Traffic._bufferTraffic',('''
            tensor = info[0]
            type_ = info[2]
            if tensor not in objs:
                objs[tensor] = {}
            objs[tensor][type_] = {}
''','''
            tensor, _, type_ = info[:3]
            if tensor not in objs:
                objs[tensor] = {}
            objs[tensor][type_] = {}
'''))
R('bt-main','Traffic._bufferTraffic',('''
            if new_traffic:
                if to_buffer:
                    objs, occupancy, overflows, sim_info, traffic = add_elem(bind_info, i, capacity, line_sz, num_ranks, obj, objs, occupancy, overflows, shapes, sim_info, trace, traffic)
                    objs[tensor][type_][obj][0] = write_back
                elif write_back:
                    traffic[tensor]['write'] += line_sz
            elif not to_buffer:
                objs[tensor][type_][obj][0] = objs[tensor][type_][obj][0] or write_back
                objs, occupancy, sim_info, traffic = evict_elem(key, line_sz, obj, objs, occupancy, sim_info, traffic)
            else:
                objs[tensor][type_][obj][0] = objs[tensor][type_][obj][0] or write_back
''','''
            if new_traffic and to_buffer:
                objs, occupancy, overflows, sim_info, traffic = add_elem(bind_info, i, capacity, line_sz, num_ranks, obj, objs, occupancy, overflows, shapes, sim_info, trace, traffic)
                objs[tensor][type_][obj][0] = write_back
            elif new_traffic:
                if write_back:
                    traffic[tensor]['write'] += line_sz
            else:
                entry = objs[tensor][type_][obj]
                entry[0] = entry[0] or write_back
                if not to_buffer:
                    objs, occupancy, sim_info, traffic = evict_elem(key, line_sz, obj, objs, occupancy, sim_info, traffic)
'''))
R('bt-wb','Traffic._bufferTraffic',('''
            is_write = trace[num_ranks * 2 + 1]
            write_back = is_write and (shapes[i] is None or trace[num_ranks * 2] < shapes[i])
            point = list(itertools.compress(trace[num_ranks:num_ranks * 2], masks[i]))
            point[-1] = trace[num_ranks * 2] // elems_per_line[i] * elems_per_line[i]
            obj = tuple(point)
''','''
            pos = trace[num_ranks * 2]
            is_write = trace[num_ranks * 2 + 1]
            pinned = shapes[i] is not None and pos >= shapes[i]
            write_back = is_write and not pinned
            point = list(itertools.compress(trace[num_ranks:num_ranks * 2], masks[i]))
            point[-1] = pos // elems_per_line[i] * elems_per_line[i]
            obj = tuple(point)
'''))
R('bt-obj','Traffic',('''
            point = list(itertools.compress(trace[num_ranks:num_ranks * 2], masks[i]))
            point[-1] = trace[num_ranks * 2] // elems_per_line[i] * elems_per_line[i]
            obj = tuple(point)
''','''
            obj = Traffic._objOf(trace, num_ranks, masks[i], elems_per_line[i])
'''),('''
    @staticmethod
    def _extractNext(''','''
    @staticmethod
    def _objOf(trace, num_ranks, mask, per_line):
        point = list(itertools.compress(trace[num_ranks:num_ranks * 2], mask))
        point[-1] = trace[num_ranks * 2] // per_line * per_line
        return tuple(point)

    @staticmethod
    def _extractNext('''))
R('bt-insort','Traffic._bufferTraffic',('''
            j = bisect.bisect_left(next_keys, next_key)
            next_keys.insert(j, next_key)
''','''
            next_keys.insert(bisect.bisect_left(next_keys, next_key), next_key)
'''),('''
            del next_keys[0]
''','''
            next_keys.pop(0)
'''))
R('bt-insort2','Traffic._bufferTraffic',('''
            j = bisect.bisect_left(next_keys, next_key)
            next_keys.insert(j, next_key)
''','''
            bisect.insort_left(next_keys, next_key)
'''))
R('bt-done','Traffic._bufferTraffic',('''
        while next_keys[0][:-1] != (float('inf'),) * len(order):
''','''
        done = (float('inf'),) * len(order)
        while next_keys[0][:-1] != done:
'''),('''
        for fn in read_write_traces.values():
            os.remove(fn)
        for fn in next_use_traces.values():
            os.remove(fn)
''','''
        for fn in itertools.chain(read_write_traces.values(), next_use_traces.values()):
            os.remove(fn)
'''))
R('bt-rm','Traffic._bufferTraffic',('''
        for fn in read_write_traces.values():
            os.remove(fn)
        for fn in next_use_traces.values():
            os.remove(fn)
''','''
        for temp in (read_write_traces, next_use_traces):
            for fn in temp.values():
                os.remove(fn)
'''))
R('bt-bind','Traffic._bufferTraffic',('''
            assert type_ == 'elem' and formats[tensor].getLayout(rank) == 'interleaved' or (type_ == 'coord' and formats[tensor].getLayout(rank) == 'contiguous') or (type_ == 'payload' and formats[tensor].getLayout(rank) == 'contiguous')
''','''
            layout = formats[tensor].getLayout(rank)
            if type_ == 'elem':
                assert layout == 'interleaved'
            else:
                assert type_ in ('coord', 'payload') and layout == 'contiguous'
'''))
R('bt-flat','Traffic._bufferTraffic',('''
        bind_info = [info for infos in bind_info for info in infos]
''','''
        flat = []
        for infos in bind_info:
            flat.extend(infos)
        bind_info = flat
'''))
R('bt-order','Traffic._bufferTraffic',('''
            if start > len(order):
                order = line[start:start * 2]
''','''
            if len(order) < start:
                order = line[start:2 * start]
'''),('''
        bind_info = [[] for _ in order]
''','''
        bind_info = []
        for _ in order:
            bind_info.append([])
'''))
R('en-parse','Traffic',('''
        trace = []
        for val in split:
            if val.isdigit():
                trace.append(int(val))
            elif val[0] == 'N':
                trace.append(None)
            elif val[0] == 'T':
                trace.append(True)
            elif val[0] == 'F':
                trace.append(False)
            else:
                raise ValueError('Unknown value: ' + val)
        num_ranks''','''
        trace = [Traffic._parse(val) for val in split]
        num_ranks'''),('''
    @staticmethod
    def _extractNext(''','''
    @staticmethod
    def _parse(val):
        if val.isdigit():
            return int(val)
        if val[0] == 'N':
            return None
        if val[0] == 'T':
            return True
        if val[0] == 'F':
            return False
        raise ValueError('Unknown value: ' + val)

    @staticmethod
    def _extractNext('''))
R('en-key','Traffic._extractNext',('''
        key = [-1] * len(order) + [i]
        key[:num_ranks // 4] = trace[:num_ranks // 4]
        key = tuple(key)
        return (key, trace)
''','''
        depth = num_ranks // 4
        key = [-1] * len(order) + [i]
        key[:depth] = trace[:depth]
        return (tuple(key), trace)
'''))
R('en-empty','Traffic._extractNext',('''
        if len(line) == 0:
            return ((float('inf'),) * len(order) + (i,), [])
''','''
        if not line:
            end_key = (float('inf'),) * len(order) + (i,)
            return (end_key, [])
'''))
R('ca-lt','Traffic.cacheTraffic',('''
                if self.next_access != other.next_access:
                    return self.next_access < other.next_access
                return self.pos < other.pos
''','''
                if self.next_access == other.next_access:
                    return self.pos < other.pos
                return self.next_access < other.next_access
'''))
R('ca-lt2','Traffic.cacheTraffic',('''
                return self.next_access == other.next_access and self.pos == other.pos
''','''
                return (self.next_access, self.pos) == (other.next_access, other.pos)
'''),('''
                if self.next_access != other.next_access:
                    return self.next_access < other.next_access
                return self.pos < other.pos
''','''
                return (self.next_access, self.pos) < (other.next_access, other.pos)
'''))
R('ca-unq','Traffic.cacheTraffic',('''
            i = 0
            while next_evict[i] is not list_elem:
                i += 1
            next_evict.pop(i)
''','''
            for i, elem in enumerate(next_evict):
                if elem is list_elem:
                    next_evict.pop(i)
                    return
'''))
R('ca-unq2','Traffic.cacheTraffic',('''
            i = 0
            while next_evict[i] is not list_elem:
                i += 1
            next_evict.pop(i)
''','''
            pos = 0
            while True:
                if next_evict[pos] is list_elem:
                    break
                pos += 1
            next_evict.pop(pos)
'''))
R('ca-pre','Traffic.cacheTraffic',('''
            for tensor, _, type_ in bind_info:
                if tensor not in pinned:
                    pinned[tensor] = {}
                if type_ not in pinned[tensor]:
                    pinned[tensor][type_] = set()
''','''
            for tensor, _, type_ in bind_info:
                pinned.setdefault(tensor, {}).setdefault(type_, set())
'''))
R('ca-tbb','Traffic.cacheTraffic',('''
            if trace[num_ranks * 2 + 2] is None:
                if obj in objs[tensor][type_]:
                    list_elem = objs[tensor][type_][obj][1]
                    if obj not in pinned[tensor][type_]:
                        unqueue(next_evict, list_elem)
                    list_elem.next_access = [float('inf')]
                else:
                    list_elem = None
                sim_info = (next_evict, pinned, list_elem)
                return (False, sim_info)
            if obj in objs[tensor][type_] and obj not in pinned[tensor][type_]:
                list_elem = objs[tensor][type_][obj][1]
                unqueue(next_evict, list_elem)
                list_elem.next_access = next_access
                next_evict.add(list_elem)
                sim_info = (next_evict, pinned, list_elem)
                return (True, sim_info)
            elif obj in pinned[tensor][type_]:
                list_elem = objs[tensor][type_][obj][1]
                list_elem.next_access = next_access
                sim_info = (next_evict, pinned, list_elem)
                return (True, sim_info)
''','''
            buffered = objs[tensor][type_]
            is_pinned = obj in pinned[tensor][type_]
            if trace[num_ranks * 2 + 2] is None:
                list_elem = None
                if obj in buffered:
                    list_elem = buffered[obj][1]
                    if not is_pinned:
                        unqueue(next_evict, list_elem)
                    list_elem.next_access = [float('inf')]
                return (False, (next_evict, pinned, list_elem))
            if is_pinned:
                list_elem = buffered[obj][1]
                list_elem.next_access = next_access
                return (True, (next_evict, pinned, list_elem))
            if obj in buffered:
                list_elem = buffered[obj][1]
                unqueue(next_evict, list_elem)
                list_elem.next_access = next_access
                next_evict.add(list_elem)
                return (True, (next_evict, pinned, list_elem))
'''))
R('ca-tobuf','Traffic.cacheTraffic',('''
            if occupancy + line_sz <= capacity:
                to_buffer = True
            elif shapes[bind_pos] is not None and trace[num_ranks * 2] >= shapes[bind_pos]:
                to_buffer = True
            elif not next_evict:
                to_buffer = False
            else:
                to_buffer = list_elem <= next_evict[-1]
            return (to_buffer, sim_info)
''','''
            fits = occupancy + line_sz <= capacity
            pin = shapes[bind_pos] is not None and trace[num_ranks * 2] >= shapes[bind_pos]
            if fits or pin:
                return (True, sim_info)
            return (bool(next_evict) and list_elem <= next_evict[-1], sim_info)
'''))
R('ca-tobuf2','Traffic.cacheTraffic',('''
            if occupancy + line_sz <= capacity:
                to_buffer = True
            elif shapes[bind_pos] is not None and trace[num_ranks * 2] >= shapes[bind_pos]:
                to_buffer = True
            elif not next_evict:
                to_buffer = False
            else:
                to_buffer = list_elem <= next_evict[-1]
            return (to_buffer, sim_info)
''','''
            if occupancy + line_sz <= capacity:
                return (True, sim_info)
            if shapes[bind_pos] is not None and trace[num_ranks * 2] >= shapes[bind_pos]:
                return (True, sim_info)
            if not next_evict:
                return (False, sim_info)
            return (list_elem <= next_evict[-1], sim_info)
'''))
R('ca-add','Traffic.cacheTraffic',('''
            while occupancy + line_sz > capacity:
                if next_evict:
                    evict_elem = next_evict.pop(-1)
                    evict_tensor, _, evict_type = bind_info[evict_elem.pos]
                    if objs[evict_tensor][evict_type][evict_elem.obj][0]:
                        traffic[evict_tensor]['write'] += line_sz
                    del objs[evict_tensor][evict_type][evict_elem.obj]
                    occupancy -= line_sz
                else:
                    overflows += 1
                    break
''','''
            while occupancy + line_sz > capacity:
                if not next_evict:
                    overflows += 1
                    break
                victim = next_evict.pop()
                evict_tensor, _, evict_type = bind_info[victim.pos]
                buffered = objs[evict_tensor][evict_type]
                if buffered[victim.obj][0]:
                    traffic[evict_tensor]['write'] += line_sz
                del buffered[victim.obj]
                occupancy -= line_sz
'''))
R('ca-add2','Traffic.cacheTraffic',('''
            while occupancy + line_sz > capacity:
                if next_evict:
                    evict_elem = next_evict.pop(-1)
                    evict_tensor, _, evict_type = bind_info[evict_elem.pos]
                    if objs[evict_tensor][evict_type][evict_elem.obj][0]:
                        traffic[evict_tensor]['write'] += line_sz
                    del objs[evict_tensor][evict_type][evict_elem.obj]
                    occupancy -= line_sz
                else:
                    overflows += 1
                    break
''','''
            while next_evict and occupancy + line_sz > capacity:
                evict_elem = next_evict.pop(-1)
                evict_tensor, _, evict_type = bind_info[evict_elem.pos]
                if objs[evict_tensor][evict_type][evict_elem.obj][0]:
                    traffic[evict_tensor]['write'] += line_sz
                del objs[evict_tensor][evict_type][evict_elem.obj]
                occupancy -= line_sz
            if occupancy + line_sz > capacity:
                overflows += 1
'''))
R('ca-evict','Traffic.cacheTraffic',('''
            if objs[tensor][type_][list_elem.obj][0]:
                traffic[tensor]['write'] += line_sz
            del objs[tensor][type_][obj]
            if obj in pinned[tensor][type_]:
                pinned[tensor][type_].remove(obj)
            occupancy -= line_sz
''','''
            dirty = objs[tensor][type_][list_elem.obj][0]
            del objs[tensor][type_][obj]
            if dirty:
                traffic[tensor]['write'] += line_sz
            pinned[tensor][type_].discard(obj)
            occupancy -= line_sz
'''))
