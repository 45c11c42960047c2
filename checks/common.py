"""Reference models shared by the checks. Nothing in here uses csvw code."""


def ref_parse(text, delimiter=',', quote='"', double=True, escape=None, skipspace=False):
    """
    An independent parser for delimiter-separated text: yields (row, number of the first and last
    text line (0-based) the row occupies). A line ends with \\n, \\r or \\r\\n; an escaped or quoted
    line end belongs to the cell.
    """
    row, cell, quoted, start = [], '', False, True  # start: at the beginning of a cell
    first = line = 0
    begun = False  # any character seen in this row
    i, n = 0, len(text)

    def eol(i):
        return 2 if text[i:i + 2] == '\r\n' else (1 if text[i] in '\r\n' else 0)

    while i < n:
        ch = text[i]
        if quoted:
            if escape and ch == escape and i + 1 < n:
                line += text[i + 1] == '\r' or (text[i + 1] == '\n' and cell[-1:] != '\r')
                cell += text[i + 1]
                i += 2
                continue
            if ch == quote:
                if double and i + 1 < n and text[i + 1] == quote:
                    cell += quote
                    i += 2
                    continue
                quoted = False
                i += 1
                continue
            line += ch == '\r' or (ch == '\n' and cell[-1:] != '\r')
            cell += ch
            i += 1
            continue
        k = eol(i)
        if k:
            yield (row + [cell] if begun else []), first, line
            row, cell, start, begun = [], '', True, False
            line += 1
            first = line
            i += k
            continue
        begun = True
        if ch == delimiter:
            row.append(cell)
            cell, start = '', True
        elif start and skipspace and ch == ' ':
            pass
        elif start and quote and ch == quote:
            quoted, start = True, False
        elif escape and ch == escape and i + 1 < n:
            line += text[i + 1] == '\r' or (text[i + 1] == '\n' and cell[-1:] != '\r')
            cell += text[i + 1]
            i += 1
            start = False
        else:
            cell += ch
            start = False
        i += 1
    if begun:
        yield row + [cell], first, line


def norm(v):
    """Types matter: 1 != 1.0 != True."""
    if isinstance(v, dict):
        return (type(v).__name__ if False else 'dict', [(k, norm(x)) for k, x in v.items()])
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    return (type(v).__name__, v)


INT = __import__('re').compile(r'[+-]?[0-9]+\Z')


def ref_atomic(v, dt):
    """Value of string `v` for the few datatypes used outside of the datatype checks."""
    import re
    if dt is None or v is None:
        return v
    spec = {'base': dt} if isinstance(dt, str) else dt
    base = spec.get('base', 'string')
    if base == 'string':
        res = v
        if spec.get('format') and not re.fullmatch(spec['format'], v):
            raise ValueError(v)
        if len(v) < spec.get('minLength', 0) or len(v) > spec.get('maxLength', 10 ** 6):
            raise ValueError(v)
        if len(v) != spec.get('length', len(v)):
            raise ValueError(v)
    elif base in ('integer', 'nonNegativeInteger'):
        v = v.strip()  # as the specification says for all but the string datatypes
        if not INT.match(v):
            raise ValueError(v)
        res = int(v)
        if base == 'nonNegativeInteger' and res < 0:
            raise ValueError(v)
    elif base == 'boolean':
        true, false = spec['format'].split('|') if 'format' in spec else ('true', 'false')
        extra = {} if 'format' in spec else {'1': True, '0': False}
        res = dict({true: True, false: False}, **extra).get(v)
        if res is None:
            raise ValueError(v)
    elif base == 'decimal':
        import decimal
        if not re.fullmatch(r'[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)', v):
            raise ValueError(v)
        res = decimal.Decimal(v)
    elif base == 'date':
        import datetime
        if not re.fullmatch(r'[0-9]{4}-[0-9]{2}-[0-9]{2}', v):
            raise ValueError(v)
        res = datetime.datetime(*[int(x) for x in v.split('-')])
    else:
        raise NotImplementedError(base)
    if 'minimum' in spec and res < ref_atomic(str(spec['minimum']), base):
        raise ValueError(v)
    if 'maximum' in spec and res > ref_atomic(str(spec['maximum']), base):
        raise ValueError(v)
    return res


def ref_cell(cell, default='', null=('',), separator=None, required=False, datatype=None):
    """Parsing of cells, see https://www.w3.org/TR/tabular-data-model/#parsing-cells"""
    s = cell if cell != '' else default
    if required and (s in null or (separator and s == '')):
        raise ValueError('required')
    if separator:
        if s == '':
            return []
        if s in null:
            return None
        items = [x if x != '' else default for x in s.split(separator)]
        return [None if x in null else ref_atomic(x, datatype) for x in items]
    if s in null:
        return None
    return ref_atomic(s, datatype)
