F('core/payload.py')
R('ad-get','Payload.__add__',('''
        other = Payload._element_value(other)
        if isinstance(other, Payload):
            ans = self.value + other.value
        else:
            ans = self.value + other
        if''','''
        ans = self.value + Payload.get(Payload._element_value(other))
        if'''))
R('ad-count','Payload.__add__',('''
        if Metrics.isCollecting():
            Metrics.incCount('Compute', 'payload_add', 1)
        return Payload(ans)
''','''
        Payload._count('payload_add')
        return Payload(ans)

    @staticmethod
    def _count(metric):
        if not Metrics.isCollecting():
            return
        Metrics.incCount('Compute', metric, 1)
'''))
R('ad-early','Payload.__add__',('''
        if isinstance(other, Payload):
            ans = self.value + other.value
        else:
            ans = self.value + other
        if''','''
        value = other.value if isinstance(other, Payload) else other
        ans = self.value + value
        if'''))
R('ad-first','Payload.__add__',('''
        other = Payload._element_value(other)
        if isinstance(other, Payload):
            ans = self.value + other.value
        else:
            ans = self.value + other
        if Metrics.isCollecting():
            Metrics.incCount('Compute', 'payload_add', 1)
        return Payload(ans)
''','''
        collecting = Metrics.isCollecting()
        operand = Payload._element_value(other)
        if isinstance(operand, Payload):
            operand = operand.value
        result = Payload(self.value + operand)
        if collecting:
            Metrics.incCount('Compute', 'payload_add', 1)
        return result
'''))
R('ia-nz','Payload.__iadd__',('''
        old = self.value
        if isinstance(other, Payload):
            self.value = self.value + other.value
        else:
            self.value = self.value + other
        if Metrics.isCollecting():
            Metrics.incCount('Compute', 'payload_update', 1)
            if old != 0:
                Metrics.incCount('Compute', 'payload_add', 1)
        return self
''','''
        was_zero = self.value == 0
        self.value = self.value + Payload.get(other)
        if not Metrics.isCollecting():
            return self
        Metrics.incCount('Compute', 'payload_update', 1)
        if not was_zero:
            Metrics.incCount('Compute', 'payload_add', 1)
        return self
'''))
R('ia-order','Payload.__iadd__',('''
        old = self.value
        if isinstance(other, Payload):
            self.value = self.value + other.value
        else:
            self.value = self.value + other
        if Metrics.isCollecting():
            Metrics.incCount('Compute', 'payload_update', 1)
            if old != 0:
                Metrics.incCount('Compute', 'payload_add', 1)
        return self
''','''
        if Metrics.isCollecting():
            if self.value != 0:
                Metrics.incCount('Compute', 'payload_add', 1)
            Metrics.incCount('Compute', 'payload_update', 1)
        if isinstance(other, Payload):
            other = other.value
        self.value += other
        return self
'''))
R('ia-helper','Payload.__iadd__',('''
        if isinstance(other, Payload):
            self.value = self.value + other.value
        else:
            self.value = self.value + other
        if Metrics.isCollecting():
            Metrics.incCount('Compute', 'payload_update', 1)
            if old != 0:
                Metrics.incCount('Compute', 'payload_add', 1)
        return self
''','''
        self.value = self.value + Payload.get(other)
        self._recordUpdate(old != 0)
        return self

    def _recordUpdate(self, added):
        if Metrics.isCollecting():
            Metrics.incCount('Compute', 'payload_update', 1)
            if added:
                Metrics.incCount('Compute', 'payload_add', 1)
'''))
R('ra-order','Payload.__radd__',('''
        if Metrics.isCollecting():
            Metrics.incCount('Compute', 'payload_add', 1)
        return Payload(other + self.value)
''','''
        ans = other + self.value
        if Metrics.isCollecting():
            Metrics.incCount('Compute', 'payload_add', 1)
        return Payload(ans)
'''))
R('il-get','Payload.__ilshift__',('''
        if isinstance(other, Payload):
            self.value = other.value
        else:
            self.value = other
        return self
''','''
        self.value = Payload.get(other)
        return self
'''))
R('sb-tern','Payload.__sub__',('''
        if isinstance(other, Payload):
            ans = self.value - other.value
        else:
            ans = self.value - other
        return Payload(ans)
''','''
        if isinstance(other, Payload):
            return Payload(self.value - other.value)
        return Payload(self.value - other)
'''))
R('is-aug','Payload.__isub__',('''
        if isinstance(other, Payload):
            self.value = self.value - other.value
        else:
            self.value = self.value - other
        return self
''','''
        self.value -= other.value if isinstance(other, Payload) else other
        return self
'''))
R('im-val','Payload.__imul__',('''
        if isinstance(other, Payload):
            self.value = self.value * other.value
        else:
            self.value = self.value * other
        if Metrics.isCollecting():
            Metrics.incCount('Compute', 'payload_mul', 1)
            Metrics.incCount('Compute', 'payload_update', 1)
        return self
''','''
        factor = Payload.get(other)
        self.value = self.value * factor
        if Metrics.isCollecting():
            for metric in ('payload_mul', 'payload_update'):
                Metrics.incCount('Compute', metric, 1)
        return self
'''))
R('eq-get','Payload.__eq__',('''
        if isinstance(other, Payload):
            return self.value == other.value
        return self.value == other
''','''
        return self.value == Payload.get(other)
'''))
R('ne-not','Payload.__ne__',('''
        if isinstance(other, Payload):
            return self.value != other.value
        return self.value != other
''','''
        return not self == other
'''))
R('le-tern','Payload.__le__',('''
        if isinstance(other, Payload):
            return self.value <= other.value
        return self.value <= other
''','''
        rhs = other.value if isinstance(other, Payload) else other
        return self.value <= rhs
'''))
R('ie-ret','Payload.isEmpty',('''
        if p == default:
            return True
        return False
''','''
        return True if p == default else False
'''))
R('ie-bool','Payload.isEmpty',('''
        if p == default:
            return True
        return False
''','''
        return bool(p == default)
'''))
R('mb-neg','Payload.maybe_box',('''
        if isinstance(value, (bool, float, int, str, tuple, frozenset)):
            return Payload(value)
        return value
''','''
        boxable = (bool, float, int, str, tuple, frozenset)
        return Payload(value) if isinstance(value, boxable) else value
'''))
R('mb-const','',('''
    @staticmethod
    def maybe_box(value):
        if isinstance(value, (bool, float, int, str, tuple, frozenset)):
''','''
    _BOXABLE = (bool, float, int, str, tuple, frozenset)

    @staticmethod
    def maybe_box(value):
        if isinstance(value, Payload._BOXABLE):
'''))
R('ct-get','Payload.contains',('''
        if not isinstance(payload, Payload):
            return isinstance(payload, type)
        return isinstance(payload.value, type)
''','''
        return isinstance(Payload.get(payload), type)
'''))
R('ev-neg','Payload._element_value',('''
        if type(other).__name__ == 'CoordPayload':
            return other.payload
        return other
''','''
        is_element = type(other).__name__ == 'CoordPayload'
        return other.payload if is_element else other
'''))
R('sa-get','Payload.__setattr__',('''
        if name == 'v':
            name = 'value'
        if isinstance(value, Payload):
            value = value.v()
        self.__dict__[name] = value
''','''
        attr = 'value' if name == 'v' else name
        self.__dict__[attr] = Payload.get(value)
'''))
R('it-from','Payload.__iter__',('''
        for v in self.value:
            yield v
''','''
        yield from self.value
'''))
R('new-flow','Payload.__new__',('''
        if type(value).__name__ == 'Fiber':
            return value
        self = super(Payload, cls).__new__(cls)
        self.__init__(value=value)
        return self
''','''
        if type(value).__name__ != 'Fiber':
            self = super().__new__(cls)
            self.__init__(value=value)
            return self
        return value
'''))
R('pd-flat','Payload.payload2dict',('''
        if isinstance(payload, Fiber):
            return payload.fiber2dict()
        elif isinstance(payload, Payload):
            if Payload.contains(payload, Fiber):
                return payload.value.fiber2dict()
            else:
                return payload.value
        else:
            return payload
''','''
        value = Payload.get(payload)
        if isinstance(value, Fiber):
            return value.fiber2dict()
        return value
'''))
F('core/coord_payload.py')
R('cp-get','CoordPayload.__add__',('''
        if isinstance(other, CoordPayload):
            ans = self.payload + other.payload
        else:
            ans = self.payload + other
        return ans
''','''
        if isinstance(other, CoordPayload):
            return self.payload + other.payload
        return self.payload + other
'''))
R('cp-helper','CoordPayload.__mul__',('''
        if isinstance(other, CoordPayload):
            ans = self.payload * other.payload
        else:
            ans = self.payload * other
        return ans
''','''
        return self.payload * self._payloadOf(other)

    @staticmethod
    def _payloadOf(other):
        if isinstance(other, CoordPayload):
            return other.payload
        return other
'''))
R('cp-il','CoordPayload.__ilshift__',('''
        if isinstance(other, CoordPayload):
            self.payload <<= other.payload
        else:
            self.payload <<= other
        return self
''','''
        value = other.payload if isinstance(other, CoordPayload) else other
        self.payload <<= value
        return self
'''))
R('cp-ia','CoordPayload.__iadd__',('''
        if isinstance(other, CoordPayload):
            self.payload += other.payload
        else:
            self.payload += other
        return self
''','''
        if isinstance(other, CoordPayload):
            other = other.payload
        self.payload += other
        return self
'''))
R('cp-eq','CoordPayload.__eq__',('''
        if isinstance(other, CoordPayload):
            return self.payload == other.payload
        return self.payload == other
''','''
        return self.payload == (other.payload if isinstance(other, CoordPayload) else other)
'''))
F('core/rank_attrs.py')
R('ra-est','RankAttrs.__init__',('''
        if shape is None:
            self._estimated_shape = True
            self._shape = None
        else:
            self._estimated_shape = False
            self._shape = shape
''','''
        self._estimated_shape = shape is None
        self._shape = shape
'''))
R('ra-gd','RankAttrs.getDefault',('''
        value = Payload.get(self._default)
        if isinstance(value, int):
            return Payload(value)
        return deepcopy(self._default)
''','''
        if not isinstance(Payload.get(self._default), int):
            return deepcopy(self._default)
        return Payload(Payload.get(self._default))
'''))
R('ra-gd2','RankAttrs.getDefault',('''
        value = Payload.get(self._default)
        if isinstance(value, int):
            return Payload(value)
        return deepcopy(self._default)
''','''
        default = self._default
        if Payload.contains(default, int):
            return Payload(Payload.get(default))
        return deepcopy(default)
'''))
R('ra-fmt','RankAttrs.setFormat',('''
        assert fmt == 'C' or fmt == 'U'
''','''
        assert fmt in ('C', 'U')
'''))
R('ra-eq','RankAttrs.__eq__',('''
        if not isinstance(other, type(self)):
            return False
        return self.__key() == other.__key()
''','''
        return isinstance(other, type(self)) and self.__key() == other.__key()
'''))
