"""Text, path and delimited-text helpers."""
import csv
import glob
import os
import re
import numpy as np
from shapely.geometry import MultiPoint, box
from resippy.utils import string_utils, file_utils, numpy_and_array_utils, geom_utils
from resippy.utils.csv_utils import CsvUtils

OPTS = {
    'make': {'effects': r'makedirs|mkdir'},
    'write_list': {'effects': r'write$|open|writelines'},
}


def _clean(t):
    return t.replace('\r\n', os.linesep).replace('\r', os.linesep).replace('\n', os.linesep)


def newlines__code(t: Str):
    return string_utils.cleanup_newlines(t)


def newlines__spec(t):
    """every newline convention becomes the platform's, two-character newlines first"""
    return _clean(t)


def stripped__code(t: Str):
    return string_utils.remove_newlines(t)


def stripped__spec(t):
    """no newline of any convention remains"""
    return _clean(t).replace(os.linesep, '')


def stripped__spec2(t):
    return t.replace('\r\n', '').replace('\r', '').replace('\n', '')


def stripped__spec3(t):
    return t.replace('\r', '').replace('\n', '')


def stripped__spec4(t):
    return t.replace('\n', '').replace('\r', '')


def snake__code(t: Str):
    return string_utils.convert_to_snake_case(t)


def snake__spec(t):
    """an underscore before every capitalised word and before every capital after a lower-case letter or digit, then lower case"""
    return re.sub('([a-z0-9])([A-Z])', r'\1_\2', re.sub('(.)([A-Z][a-z]+)', r'\1_\2', t)).lower()


def make__code(d: Str):
    file_utils.make_dir_if_not_exists(d)


def make__spec(d):
    """a missing directory is created with its parents, an existing one is left alone"""
    if not os.path.exists(d):
        os.makedirs(d)


def make__spec2(d):
    os.makedirs(d, exist_ok=True)


def folders__code(d: Str):
    return file_utils.get_all_folders_in_dir(d)


def folders__spec(d):
    """full paths of the sub-directories"""
    return [os.path.join(d, x) for x in os.listdir(d) if os.path.isdir(os.path.join(d, x))]


def _ext(e):
    return e.replace('.', '').replace('*', '')


def _files(d, e):
    return glob.glob(d + os.path.sep + '*.' + e)


def files__code(d: Str, e: Str):
    return file_utils.get_all_files_in_dir(d, e), file_utils.get_all_files_in_dir(d)


def files__spec(d, e):
    """full paths of the files with the extension, with or without a leading dot or star; all of them when no extension is given"""
    return _files(d, _ext(e)), _files(d, '*')


def files_list__code(d: Str, e: Str, f: Str):
    return file_utils.get_all_files_in_dir(d, [e, f])


def files_list__spec(d, e, f):
    """one extension after the other"""
    return _files(d, _ext(e)) + _files(d, _ext(f))


def names__code(d: Str, e: Str):
    return file_utils.get_all_files_in_dir(d, e, return_fullpaths=False)


def names__spec(d, e):
    """base names on request"""
    return [os.path.basename(f) for f in _files(d, _ext(e))]


def starting__code(d: Str, s: Str, e: Str):
    return file_utils.get_files_in_dir_that_start_with(d, s, e, return_fullpaths=False)


def starting__spec(d, s, e):
    """the base names that start with the text"""
    names = [os.path.basename(f) for f in _files(d, _ext(e))]
    return [n for n in names if n.startswith(s)]


def starting_full__code(d: Str, s: Str, t: Str):
    return file_utils.get_files_in_dir_that_start_with(d, [s, t])


def starting_full__spec(d, s, t):
    """one prefix after the other, as paths in the directory"""
    names = [os.path.basename(f) for f in _files(d, '*')]
    return [os.path.join(d, n) for n in [m for m in names if m.startswith(s)] + [m for m in names if m.startswith(t)]]


def path__code(b: Str, c: Str, d: Str):
    return file_utils.get_path_from_subdirs(b, [c, d])


def path__spec(b, c, d):
    """base directory, then each sub-directory in order"""
    return os.path.join(os.path.join(b, c), d)


def path__spec2(b, c, d):
    return os.path.join(b, c, d)


def write_list__code(t: StrList, fn: Str):
    file_utils.write_text_list_to_file(t, fn)


def write_list__spec(t, fn):
    """one element per line, in order, in a new file"""
    with open(fn, 'w') as f:
        f.write('\n'.join(t))


def write_list__spec2(t, fn):
    with open(fn, 'w') as f:
        f.write(os.linesep.join(t))


def read_list__code(fn: Str):
    return file_utils.read_text_list_from_file(fn)


def read_list__spec(fn):
    """one element per line, in order, without the newlines"""
    with open(fn, 'r') as f:
        lines = f.readlines()
    return [_clean(x).replace(os.linesep, '') for x in lines]


def csv__code(fn: Str, d: Str):
    return CsvUtils.single_line_header_csv_to_dict(fn, d), CsvUtils.single_line_header_csv_to_dict(fn)


def _csv(fn, d):
    with open(fn) as f:
        rows = csv.reader(f, delimiter=d)
        header = next(rows)
        data = np.asarray([r for r in rows])
    return {h: data[:, i] for i, h in enumerate(header)}


def csv__spec(fn, d):
    """each header name maps to its own column of the remaining rows, as text"""
    return _csv(fn, d), _csv(fn, ',')


def split__code(t: Arr(2)):
    return numpy_and_array_utils.list_of_tuples_to_separate_lists(t)


def split__spec(t):
    """element k of every tuple, in order"""
    return np.array(t).T.tolist()


def split__spec2(t):
    return [list(x) for x in zip(*t)]


def joined__code(a: Arr(2)):
    return numpy_and_array_utils.separate_lists_to_list_of_tuples(a)


def joined__spec(a):
    """tuple k holds element k of every list"""
    return [tuple(x) for x in np.transpose(a)]


def removed__code(a: Sym, v: Val):
    return numpy_and_array_utils.remove_all_entries_from_list(a, v)


def removed__spec(a, v):
    """the other entries, in order"""
    return [x for x in a if x != v]


def rectangle__code(a: Scalar, b: Scalar, c: Scalar, d: Scalar):
    return geom_utils.bounds_2_shapely_polygon(a, b, c, d)


def rectangle__spec(a, b, c, d):
    """the axis-aligned rectangle with these bounds"""
    return MultiPoint([(a, c), (b, d)]).envelope


def rectangle__spec2(a, b, c, d):
    return box(a, d, b, c)
