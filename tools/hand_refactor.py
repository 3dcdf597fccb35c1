"""Development tool: refactorings written by hand (helpers extracted, loops rewritten, conditions turned), on which every check must stay
quiet.  hand_refactor.py [SET..]: copies of /repo under /tmp, the tests, then all checks on each copy."""
import shutil,sys,os,subprocess
R='records/record.py'; F='records/field.py'; S='records/select.py'; FI='records/fillers/filler.py'
T='records/fillers/builtin_fillers/typing_fillers.py'; G='records/fillers/get_filler.py';ST='records/fillers/builtin_fillers/std_fillers.py'
BV='records/fillers/builtin_validators.py'; VA='records/fillers/validators.py'
import tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D='records/utils/decorators.py'; U='records/fillers/util.py'; TC='records/utils/typing_compatible.py'; C='records/fillers/coercers.py'
SETS={
'a':[
(R,"""        for k in m:
            ret[k] = m[k]
""","""        ret.update(m)
"""),
(S,"""            self._bool = next(chain(
                self.keys_to_add,
                self.keys_to_maybe_add,
                self.keys_to_remove,
                self.keys_to_maybe_remove,
                self.keys_to_rename,
                self.keys_to_maybe_rename,
            ), None) is not None
""","""            self._bool = any((self.keys_to_add, self.keys_to_maybe_add, self.keys_to_remove,
                              self.keys_to_maybe_remove, self.keys_to_rename, self.keys_to_maybe_rename))
"""),
(R,"""        for name in self._fields:
            if getattr(self, name) != getattr(other, name):
                return False
        return True
""","""        return not any(getattr(self, name) != getattr(other, name) for name in self._fields)
"""),
(R,"""        f: RecordField
        ret = []
        for k, f in type(self)._fields.items():
            if exclude_from_ordering in f.tags:
                continue
            ret.append(getattr(self, k))
        return ret
""","""        return [getattr(self, k) for k, f in type(self)._fields.items() if exclude_from_ordering not in f.tags]
"""),
(R,"""        params_parts = []
        for name, value in self.to_dict(**kwargs).items():
            params_parts.append(f'{name}={value!r}')

        return type(self).__qualname__ + "(" + ", ".join(params_parts) + ")"
""","""        params = ', '.join(f'{name}={value!r}' for name, value in self.to_dict(**kwargs).items())
        return f'{type(self).__qualname__}({params})'
"""),
(R,"""        cls._required_keys = {k for (k, f) in cls._fields.items() if not f.has_default}
        cls._optional_keys = {k for k in cls._fields if k not in cls._required_keys}
""","""        cls._optional_keys = {k for (k, f) in cls._fields.items() if f.has_default}
        cls._required_keys = set(cls._fields) - cls._optional_keys
"""),
(T,"""                    hollow_passes = 0  # the number of elements that filled identically
                    for element in v:
                        filled = inner_filler.__call__(element)
                        if filled is element:
                            hollow_passes += 1
                        else:
                            all_elements = chain(
                                v[:hollow_passes],
                                [filled],
                                (inner_filler.__call__(a) for a in v[hollow_passes + 1:])
                            )
                            return _rebuild_tuple(v, all_elements)
                    return v
        else""","""                    elements = list(v)
                    filled = [inner_filler(e) for e in elements]
                    if all(a is b for a, b in zip(elements, filled)):
                        return v
                    return _rebuild_tuple(v, filled)
        else"""),
(T,"""                    hollow_passes = 0  # the number of elements that filled identically
                    for element, filler in zip(v, self.sub_fillers):
                        filled = filler(element)
                        if filled is element:
                            hollow_passes += 1
                        else:
                            all_elements = chain(
                                v[:hollow_passes],
                                [filled],
                                (if_(a) for (a, if_) in zip(v[hollow_passes + 1:],
                                                            self.sub_fillers[hollow_passes + 1:]))
                            )
                            return _rebuild_tuple(v, all_elements)
                    return v
""","""                    filled = [filler(e) for e, filler in zip(v, self.sub_fillers)]
                    if all(a is b for a, b in zip(v, filled)):
                        return v
                    return _rebuild_tuple(v, filled)
"""),
(T,"""                hollow_passes = 0  # the number of elements that filled identically
                for element in v:
                    filled = self.element_filler(element)
                    if filled is element:
                        hollow_passes += 1
                    else:
                        pre, post = _split_at(v, hollow_passes)
                        all_elements = chain(
                            pre,
                            [filled],
                            (self.element_filler(a) for a in post)
                        )
                        return self.reconstruct(all_elements, v)
                return v
""","""                changed = False
                result = []
                for element in v:
                    filled = self.element_filler(element)
                    changed = changed or filled is not element
                    result.append(filled)
                return self.reconstruct(result, v) if changed else v
"""),
(T,"""                items, tuples = [], []
                for k, v in value.items():
                    items.append((k, v))
                    tuples.append((self.key_filler(k), self.value_filler(v)))
                if any(
                        (k is not filled_k) or (v is not filled_v)
                        for ((k, v), (filled_k, filled_v)) in zip(items, tuples)
                ):
                    return self.reconstruct(tuples, value)
                else:
                    return value
""","""                changed, tuples = False, []
                for k, v in value.items():
                    filled_k, filled_v = self.key_filler(k), self.value_filler(v)
                    if filled_k is not k or filled_v is not v:
                        changed = True
                    tuples.append((filled_k, filled_v))
                if not changed:
                    return value
                return self.reconstruct(tuples, value)
"""),
(T,"""        for i, sub_filler in enumerate(self.sub_fillers):
            try:
                success = sub_filler.fill(arg)
            except Exception:
                if not best_results and i + 1 == len(self.sub_fillers):
                    raise
                continue
            if success.type_pass_kind < best_key:
                best_results = [success.value]
                best_key = success.type_pass_kind
            elif success.type_pass_kind == best_key:
                best_results.append(success.value)

        if len(best_results) > 1 and any(r is not best_results[0] for r in best_results[1:]):
            raise ValueError('multiple sub-fillers matched')

        return FillingSuccess(best_results[0], best_key)
""","""        successes, error = [], None
        try:
            for sub_filler in self.sub_fillers:
                try:
                    successes.append(sub_filler.fill(arg))
                except Exception as e:
                    error = e
            if not successes:
                raise error
        finally:
            error = None
        best_key = min(s.type_pass_kind for s in successes)
        first, *rest = (s.value for s in successes if s.type_pass_kind == best_key)
        if any(r is not first for r in rest):
            raise ValueError('multiple sub-fillers matched')
        return FillingSuccess(first, best_key)
"""),
(FI,"""                for i, coercer in enumerate(self.coercers):
                    try:
                        coerced = coercer(arg)
                        tc = self.type_check(coerced)
                        if not tc \\
                                or (tc == TypeMatch.inexact and self.type_checking_style != TypeCheckStyle.check):
                            raise TypeError(f'coercer returned value of wrong type: {type(coerced)}')
                    except Exception:
                        if i == len(self.coercers) - 1:
                            raise
                    else:
                        arg = coerced
                        break
                tpk = TypePassKind.coerce
""","""                arg = self._coerce(arg)
                tpk = TypePassKind.coerce
"""),
(FI,"""    def bind(self, owner_cls):
        for arg in self.args:
""","""    def _accepts(self, match):
        return match is TypeMatch.exact or (match is TypeMatch.inexact and self.type_checking_style is TypeCheckStyle.check)

    def _coerce(self, arg):
        *others, last = self.coercers
        for coercer in others:
            try:
                return self._coerce_by(coercer, arg)
            except Exception:
                continue
        return self._coerce_by(last, arg)

    def _coerce_by(self, coercer, arg):
        coerced = coercer(arg)
        if not self._accepts(self.type_check(coerced)):
            raise TypeError(f'coercer returned value of wrong type: {type(coerced)}')
        return coerced

    def bind(self, owner_cls):
        for arg in self.args:
"""),
(R,"""        successes = []
        for m in cls._parsers:
            try:
                r = m(v)
            except Exception:
                pass
            else:
                successes.append(r)
        if len(successes) == 0:
            raise ParseFailure(f'cannot parse {cls.__qualname__} from argument of type {type(v).__qualname__}')
        elif len(successes) > 1:
            raise TypeError(f'multiple unary constructors succeeded with argument of type {type(v).__qualname__}')

        return next(iter(successes))
""","""        successes = []
        for m in cls._parsers:
            try:
                successes.append(m(v))
            except Exception:
                continue
        if not successes:
            raise ParseFailure(f'cannot parse {cls.__qualname__} from argument of type {type(v).__qualname__}')
        if len(successes) > 1:
            raise TypeError(f'multiple unary constructors succeeded with argument of type {type(v).__qualname__}')
        result, = successes
        return result
"""),
(G,"""        blt_supertype = next((k for (k, v) in builtin_filler_map.items() if issubclass(origin, k)), None)
        if blt_supertype:
            return builtin_filler_map[blt_supertype](origin, args)
""","""        for supertype, filler in builtin_filler_map.items():
            if issubclass(origin, supertype):
                return filler(origin, args)
"""),
],
'b':[
(R,"""        def tuples():
            # inner function to lazily get the key-value tuples
            for field in fields_to_extract:
                if not export_field(field):
                    continue

                try:
                    v = getattr(obj, field.name)
                except AttributeError:
                    if field.name not in missing_ok:
                        # we allow skipping missing fields if they have a default
                        raise
                    if include_defaults and field.has_default:
                        # but if the field is missing, and we expect to find it anyway, then we yield its tuple even
                        # though it was not present
                        yield field.name, field.make_default()
                else:
                    if export_value(field, v):
                        yield field.name, v

        name_values = tuples()
        if sort:
            if sort == -1:
                name_values = sorted(name_values, reverse=True)
            elif callable(sort):
                name_values = sorted(name_values, key=lambda t: sort(t[0]))
            else:
                name_values = sorted(name_values)

        return dict(name_values)
""","""        values = {}
        for field in fields_to_extract:
            if not export_field(field):
                continue
            name = field.name
            try:
                v = getattr(obj, name)
            except AttributeError:
                if name not in missing_ok:
                    raise
                if include_defaults and field.has_default:
                    values[name] = field.make_default()
                continue
            if export_value(field, v):
                values[name] = v

        if not sort:
            return values
        if sort == -1:
            names = sorted(values, reverse=True)
        else:
            names = sorted(values, key=sort if callable(sort) else None)
        return {name: values[name] for name in names}
"""),
(R,"""        values = {}
        if not (kwargs.keys() <= cls._fields.keys()):
            redundant = kwargs.keys() - cls._fields.keys()
            raise TypeError(f'arguments {redundant} invalid for type {cls.__qualname__}')
""","""        values = {}
        redundant = set(kwargs) - set(cls._fields)
        if redundant:
            raise TypeError(f'arguments {redundant} invalid for type {cls.__qualname__}')
"""),
(R,"""        if not (cls._required_keys <= kwargs.keys()):
            required = cls._required_keys.difference(kwargs)
            raise TypeError(f'missing required arguments: {tuple(required)}')
        for k, field in cls._fields.items():
            if k not in kwargs:
                values[k] = field.make_default()
""","""        missing = tuple(k for k in cls._required_keys if k not in kwargs)
        if missing:
            raise TypeError(f'missing required arguments: {missing}')
        values.update((k, field.make_default()) for k, field in cls._fields.items() if k not in kwargs)
"""),
(R,"""        # parsing stores the parsing result, if any
        parsing = None
        if arg is not NO_ARG:
            # handle the positional
            if not kwargs and cls._unary_parse:
                try:
                    parsing = cls.parse(arg)
                except ParseFailure:
                    # if we failed parsing, and we have no trivial field, raise an error
                    if len(cls._required_keys) != 1:
                        raise

            if len(cls._required_keys) != 1:
                # no trivial field
                if parsing is not None:
                    return parsing
                raise TypeError(f'class {cls.__qualname__} accepts no positional arguments')

            # we have a trivial field
            arg_key = next(iter(cls._required_keys))
            if arg_key in kwargs:
                raise TypeError(f'duplicate {arg_key}')
            kwargs[arg_key] = arg
""","""        parsing = None
        if arg is not NO_ARG:
            trivial = len(cls._required_keys) == 1
            if cls._unary_parse and not kwargs:
                parsing = cls._try_parse(arg, trivial)
            if not trivial:
                if parsing is None:
                    raise TypeError(f'class {cls.__qualname__} accepts no positional arguments')
                return parsing
            arg_key, = cls._required_keys
            if arg_key in kwargs:
                raise TypeError(f'duplicate {arg_key}')
            kwargs[arg_key] = arg
"""),
(R,"""    def post_new(self: T) -> Optional[T]:
""","""    @classmethod
    def _try_parse(cls, arg, failure_ok):
        try:
            return cls.parse(arg)
        except ParseFailure:
            if not failure_ok:
                raise
            return None

    def post_new(self: T) -> Optional[T]:
"""),
(S,"""        for s, d in self.keys_to_rename:
            if d in mapping:
                raise ValueError(f'key {d} cannot be overridden in map')
            mapping[d] = mapping.pop(s)
        for s, d in self.keys_to_maybe_rename:
            if s not in mapping:
                continue
            if d in mapping:
                raise ValueError(f'key {d} cannot be overridden in map')
            mapping[d] = mapping.pop(s)
""","""        for s, d in self.keys_to_rename:
            self._rename(mapping, s, d)
        for s, d in self.keys_to_maybe_rename:
            if s in mapping:
                self._rename(mapping, s, d)
"""),
(S,"""    def __bool__(self):
        if self._bool""","""    @staticmethod
    def _rename(mapping, source, target):
        if target in mapping:
            raise ValueError(f'key {target} cannot be overridden in map')
        mapping[target] = mapping.pop(source)

    def __bool__(self):
        if self._bool"""),
(S,"""        for s, v in self.keys_to_maybe_add:
            if s in mapping:
                continue
            mapping[s] = v
""","""        for s, v in self.keys_to_maybe_add:
            mapping.setdefault(s, v)
"""),
(S,"""        return type(self)(
            keys_to_add=tuple(chain(self.keys_to_add, other.keys_to_add)),
            keys_to_maybe_add=tuple(chain(self.keys_to_maybe_add, other.keys_to_maybe_add)),
            keys_to_remove=tuple(chain(self.keys_to_remove, other.keys_to_remove)),
            keys_to_maybe_remove=tuple(chain(self.keys_to_maybe_remove, other.keys_to_maybe_remove)),
            keys_to_rename=tuple(chain(self.keys_to_rename, other.keys_to_rename)),
            keys_to_maybe_rename=tuple(chain(self.keys_to_maybe_rename, other.keys_to_maybe_rename)),
        )
""","""        return type(self)(**{
            name: getattr(self, name) + getattr(other, name)
            for name in ('keys_to_add', 'keys_to_maybe_add', 'keys_to_remove', 'keys_to_maybe_remove', 'keys_to_rename',
                         'keys_to_maybe_rename')
        })
"""),
(S,"""        if instance is None:
            return self.BoundToClass(self, owner, (), {}, Select.empty)
        return self.Bound(self, instance, (), {}, Select.empty)
""","""        bound, target = (self.BoundToClass, owner) if instance is None else (self.Bound, instance)
        return bound(self, target, (), {}, Select.empty)
"""),
(F,"""        if self.default_is_factory:
            return self.default()
        return self.default
""","""        return self.default() if self.default_is_factory else self.default
"""),
(T,"""        self.possible_values = defaultdict(set)
        for pv in get_args(origin):
            self.possible_values[type(pv)].add(pv)
""","""        args = get_args(origin)
        self.possible_values = {t: {a for a in args if type(a) is t} for t in map(type, args)}
"""),
(BV,"""        if self.g_eq:
            if not (self.ge <= v):
                return False
        else:
            if not (self.ge < v):
                return False

        if self.l_eq:
            if not (self.lt >= v):
                return False
        else:
            if not (self.lt > v):
                return False

        return True
""","""        above = self.ge <= v if self.g_eq else self.ge < v
        if not above:
            return False
        return bool(v <= self.lt if self.l_eq else v < self.lt)
"""),
(VA,"""        if isinstance(self.err, Exception):
            return self.err
        if self.warn:
            return UserWarning(self.err)
        return ValueError(self.err)
""","""        err = self.err
        if not isinstance(err, Exception):
            err = (UserWarning if self.warn else ValueError)(err)
        return err
"""),
(R,"""        if self.is_frozen():
            return self
        return type(self)(**{k: _Filled(v) for (k, v) in self.__stored_values().items()})

    def __deepcopy__""","""        return self if self.is_frozen() else self.__rebuild(self.__stored_values())

    def __rebuild(self, values):
        return type(self)(**{k: _Filled(v) for (k, v) in values.items()})

    def __deepcopy__"""),
(R,"""            return memo[id(self)]
        return type(self)(**{k: _Filled(v) for (k, v) in values.items()})
""","""            return memo[id(self)]
        return self.__rebuild(values)
"""),
(R,"""        for field in cls._fields.values():
            if field.owner is not cls:
                continue
            field.filler.bind(cls)

        cls._parsers = []
        for name in dir(cls):
            v = getattr_static(cls, name)
            if getattr(v, '__parser__', False):
                cls._parsers.append(getattr(cls, name))
""","""        for own in [f for f in cls._fields.values() if f.owner is cls]:
            own.filler.bind(cls)

        cls._parsers = [getattr(cls, name) for name in dir(cls)
                        if getattr(getattr_static(cls, name), '__parser__', False)]
"""),
],
}
SETS2={'c':[
(BV,"        return min(max(v, self.ge), self.le)\n","""        if v < self.ge:
            return self.ge
        if v > self.le:
            return self.le
        return v
"""),
(ST,"""        if v == 0:
            return False
        if v == 1:
            return True
        raise TypeError
""","""        for result in (False, True):
            if v == int(result):
                return result
        raise TypeError
"""),
(U,"""    if isinstance(obj, cls):
        return obj
    elif isinstance(obj, type) and issubclass(obj, cls):
        return obj()
    wrapped = getattr(obj, '__wrapped__', None)
    # only factories of tokens are called, metadata that is not meant for records might be any wrapped function
    if isinstance(wrapped, type) and issubclass(wrapped, cls):
        return obj()
    return None
""","""    if isinstance(obj, cls):
        return obj
    for candidate in (obj, getattr(obj, '__wrapped__', None)):
        if isinstance(candidate, type) and issubclass(candidate, cls):
            return obj()
    return None
"""),
(D,"""        if f is None:
            return lambda f: ret(self, f, **kwargs)
        return func(self, f, **kwargs)
""","""        if f is not None:
            return func(self, f, **kwargs)

        def decorate(f):
            return ret(self, f, **kwargs)
        return decorate
"""),
(F,"""        return FieldDict((k, f) for (k, f) in self.items() if (tag in f.tags))
""","""        ret = FieldDict()
        for name, field in self.items():
            if tag in field.tags:
                ret[name] = field
        return ret
"""),
(F,"""        return (not self.default_is_factory) and self.default == v
""","""        if self.default_is_factory:
            return False
        return self.default == v
"""),
(F,"""        if meta_org is Final:
            if not owner.is_frozen():
                raise TypeError('cannot declare Final field in non-frozen Record')
            inner = get_args(origin)[0]
            if args:
                inner = Annotated[(inner, *args)]
            ret = cls.from_type_hint(inner, owner=owner, **kwargs)
        else:
            filler = get_filler(th)
            ret = cls(filler=filler, owner=owner, **kwargs)
        for arg in args:
            ret._apply(arg)
        return ret
""","""        if meta_org is not Final:
            ret = cls(filler=get_filler(th), owner=owner, **kwargs)
        elif not owner.is_frozen():
            raise TypeError('cannot declare Final field in non-frozen Record')
        else:
            inner, = get_args(origin)
            ret = cls.from_type_hint(Annotated[(inner, *args)] if args else inner, owner=owner, **kwargs)
        ret.tags.update(arg for arg in args if isinstance(arg, Tag))
        return ret
"""),
(TC,"""    args = ()
    while True:
        if is_annotation(v):
            v, *inner_args = get_args(v)
            args = (*inner_args, *args)
        elif getattr(v, '__supertype__', None) is not None:
            # a newtype might be of an annotated type
            v = v.__supertype__
        else:
            return v, args
""","""    if is_annotation(v):
        inner, *own = get_args(v)
        origin, args = split_annotation(inner)
        return origin, (*args, *own)
    supertype = getattr(v, '__supertype__', None)
    if supertype is not None:
        return split_annotation(supertype)
    return v, ()
"""),
(C,"""        functors = [filler.get_coercer(t) for t in self.inner_coercers]
        functors.reverse()

        def ret(v):
            for f in functors:
                v = f(v)
            return v

        return ret
""","""        functors = tuple(filler.get_coercer(t) for t in self.inner_coercers)

        def composed(v):
            for f in reversed(functors):
                v = f(v)
            return v

        return composed
"""),
(C,"""        func = getattr(cls, self.method)

        def ret(v):
            return func(v, *self.args, **self.kwargs)

        return ret
""","""        func = getattr(cls, self.method)
        return lambda v: func(v, *self.args, **self.kwargs)
"""),
(ST,"""            for k, a in v.items():
                tc = self._type_constraints.get(k)
                if tc is None or not isinstance(a, tc):
                    raise TypeError
""","""            constraints = self._type_constraints
            if not all(k in constraints and isinstance(a, constraints[k]) for k, a in v.items()):
                raise TypeError
"""),
(FI,"""            tp = self.type_check(arg)
            if tp is TypeMatch.exact:
                tpk = TypePassKind.no_coerce_strict
            elif tp is TypeMatch.inexact and self.type_checking_style is TypeCheckStyle.check:
                tpk = TypePassKind.no_coerce
            else:
                # perform coercion
                if not self.coercers:
                    raise TypeError(f'failed type checking for value of type {type(arg)}')
""","""            kinds = {TypeMatch.exact: TypePassKind.no_coerce_strict}
            if self.type_checking_style is TypeCheckStyle.check:
                kinds[TypeMatch.inexact] = TypePassKind.no_coerce
            tpk = kinds.get(self.type_check(arg) or None)
            if tpk is None:
                # perform coercion
                if not self.coercers:
                    raise TypeError(f'failed type checking for value of type {type(arg)}')
"""),
(FI,"""        if self.type_checking_style is TypeCheckStyle.hollow and not self.validators:
            return arg
        return super().__call__(arg)
""","""        return self.fill(arg).value
"""),
(R,"""        if frozen:
            cls.__setattr__ = RecordBase.__setattr__
            cls.__delattr__ = RecordBase.__delattr__
            cls.__hash__ = RecordBase.__hash__
        else:
            cls.__setattr__ = object.__setattr__
            cls.__hash__ = None
""","""        if frozen:
            for special in ('__setattr__', '__delattr__', '__hash__'):
                setattr(cls, special, getattr(RecordBase, special))
        else:
            cls.__setattr__, cls.__hash__ = object.__setattr__, None
"""),
(R,"""        self._check_comparable()
        if not isinstance(other, type(self)):
            return NotImplemented
        return self.__ordering_key() < other.__ordering_key()
""","""        return self.__compare(other, operator.lt)

    def __compare(self, other, op):
        self._check_comparable()
        if isinstance(other, type(self)):
            return op(self.__ordering_key(), other.__ordering_key())
        return NotImplemented
"""),
(R,"""        self._check_comparable()
        if not isinstance(other, type(self)):
            return NotImplemented
        return self.__ordering_key() >= other.__ordering_key()""","""        return self.__compare(other, operator.ge)"""),
(R,"from copy import deepcopy\n","import operator\nfrom copy import deepcopy\n"),
(R,"""                values[k] = cls._fields[k].filler(v)
            except Exception as e:
                # if filling failed, check if we have a parsing standing by
                if parsing is not None:
                    return parsing
                msg = f'error filling filling {k}'
                # try to create a parent error of the same type as the original error
                try:
                    parent_error = type(e)(msg)
                except Exception:
                    parent_error = ValueError(msg)

                raise parent_error from e
""","""                values[k] = cls._fields[k].filler(v)
            except Exception as e:
                # if filling failed, check if we have a parsing standing by
                if parsing is not None:
                    return parsing
                raise cls._wrap_error(e, f'error filling filling {k}') from e
"""),
(R,"""    def post_new(self: T) -> Optional[T]:
""","""    @staticmethod
    def _wrap_error(error, message):
        # try to create a parent error of the same type as the original error
        try:
            return type(error)(message)
        except Exception:
            return ValueError(message)

    def post_new(self: T) -> Optional[T]:
"""),
]}
SETS.update(SETS2)
for k in sys.argv[1:] or sorted(SETS):
    tmp = tempfile.mkdtemp(prefix='hand-')
    d = tmp + '/repo'
    shutil.copytree('/repo', d, symlinks=True)
    for f, o, n in SETS[k]:
        s = open(f'{d}/{f}').read()
        if s.count(o) != 1:
            print('not applicable', k, f, o[:80])
            continue
        open(f'{d}/{f}', 'w').write(s.replace(o, n))
    print(k, subprocess.run('/opt/venv/bin/python -m pytest -q -p no:cacheprovider 2>&1|tail -1', shell=True, cwd=d, capture_output=True, text=True).stdout)
    for i in range(1, 37):
        r = subprocess.run(['python3', 'run.py', f'C{i:02}'], cwd=V, env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
        if r.returncode:
            print(k, f'C{i:02}', r.returncode, r.stdout[-300:])
    shutil.rmtree(tmp)
