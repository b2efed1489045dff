"""C27: dictionaries are found by name and path in the documented places.

All files are in a scratch tree; what was loaded is told by a word only that dictionary has."""
import itertools
import os
import shutil
import zipfile

from .common import *

ALL_MARKS = ['qxzw' + c for c in 'abcdefghijklmnopqrst']


def write(path, mark, encoding='utf-8', head=''):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    for ext, text in (('.aff', head + 'TRY a\n'), ('.dic', '1\n%s\n' % mark)):
        with open(path + ext, 'wb') as f:
            f.write(text.encode(encoding))


def remove(path):
    for ext in ('.aff', '.dic'):
        if os.path.exists(path + ext):
            os.remove(path + ext)


def marks(ctx, d):
    return [m for m in ALL_MARKS if ctx.lookup(d, m)]


def expect(ctx, d, mark):
    got = marks(ctx, d)
    if got != [mark]:
        ctx.fail('another dictionary is loaded', [mark], got)


def fails(ctx, name, fn, *args, errors=Exception, mention=None):
    """The call has to raise."""
    ctx.op = (name,) + args
    ctx.transitions += 1
    ctx.states += 1
    try:
        fn(*args)
    except errors as e:
        if mention and mention not in str(e):
            ctx.fail('the error does not name the dictionary', mention, str(e))
        return
    except Exception as e:      # pylint: disable=broad-except
        ctx.fail('another error than documented', str(errors), repr(e))
    ctx.fail('a missing dictionary is loaded', 'an error', 'none')


class tree:
    """A fresh scratch folder, optionally as the current one."""

    def __init__(self, ctx, enter=False):
        self.path = os.path.join(os.path.realpath(ctx.scratch), 'tree%d' % next(ctx._dirs))
        self.enter = enter

    def __enter__(self):
        os.makedirs(self.path)
        self.before = os.getcwd()
        if self.enter:
            os.chdir(self.path)
        return self.path

    def __exit__(self, *exc):
        os.chdir(self.before)
        shutil.rmtree(self.path, ignore_errors=True)


# -- by path

FOLDERS = ['', 'd', 'a b', 'x.aff', 'd.dic', 'é', '.h', 'en_US', 'd/e', 'a.b/c.d']
STEMS = ['d', 'en.US', 'd.aff', 'd.dic', 'a b', 'é', 'x-y', '.h', 'd.', 'dic', 'aff', 'd.aff.dic', 'en_US', 'ru', 'd(1)', 'd[1]', 'd*', '%s', '{x}']


def paths(tier):
    for folder in FOLDERS:
        for stem in STEMS:
            for style in ('absolute', 'relative', 'dot', 'up'):
                yield folder, stem, style


def run_paths(ctx, config):
    from spylls.hunspell import Dictionary
    folder, stem, style = config
    with tree(ctx, enter=True) as root:
        path = os.path.join(root, folder, stem)
        write(path, 'qxzwa')
        # others around it, none of which is named
        for other, mark in ((stem + 'x', 'qxzwb'), ('x' + stem, 'qxzwc'), (stem[:-1] + 'q', 'qxzwd'),
                            (stem.upper() if stem.upper() != stem else stem + 'Z', 'qxzwe'), (stem.split('.')[0] + 'w', 'qxzwf')):
            write(os.path.join(root, folder, other), mark)
        for other in ('other', 'sub'):
            if other != folder:
                write(os.path.join(root, other, stem), 'qxzwg')
        given = {'absolute': path, 'relative': os.path.join(folder, stem), 'dot': './' + os.path.join(folder, stem),
                 'up': os.path.join('sub', '..', folder, stem)}[style]
        expect(ctx, ctx.call('from_files', Dictionary.from_files, given), 'qxzwa')
        if stem not in ('en_US', 'ru') or style != 'relative' or folder:
            for ext in ('.aff', '.dic'):        # half of the pair is not enough
                os.rename(path + ext, path + ext + '.away')
                fails(ctx, 'from_files', Dictionary.from_files, given)
                os.rename(path + ext + '.away', path + ext)
            remove(path)
            fails(ctx, 'from_files', Dictionary.from_files, given)


def local(tier):
    """bundled names, with and without files of that name in the current folder"""
    names = ['en_US', 'ru', 'sv_SE']
    for present in subsets(names):
        for asked in names:
            for elsewhere in (False, True):
                yield present, asked, elsewhere


WORDS = {'en_US': 'kitten', 'ru': 'кошка', 'sv_SE': 'katt'}


def run_local(ctx, config):
    from spylls.hunspell import Dictionary
    present, asked, elsewhere = config
    with tree(ctx, enter=True):
        for name, mark in zip(present, ALL_MARKS):
            write(os.path.abspath(name), mark)
        if elsewhere:
            for name in WORDS:
                write(os.path.abspath(os.path.join('sub', name)), 'qxzwm')
            expect(ctx, ctx.call('from_files', Dictionary.from_files, 'sub/' + asked), 'qxzwm')
        else:
            fails(ctx, 'from_files', Dictionary.from_files, 'sub/' + asked)
        d = ctx.call('from_files', Dictionary.from_files, asked)
        if asked in present:
            expect(ctx, d, ALL_MARKS[present.index(asked)])
        else:
            for name, word in WORDS.items():
                if ctx.lookup(d, word) != (name == asked):
                    ctx.fail('another bundled dictionary is loaded', asked, word)
            if marks(ctx, d):
                ctx.fail('a local dictionary is loaded', asked, marks(ctx, d))
        if not present and not elsewhere:
            for name in ('en_GB', 'en', 'sv', 'EN_US', 'en_us', 'en_US.aff', 'data/en/en_US', ''):
                fails(ctx, 'from_files', Dictionary.from_files, name)


# -- from the system

DOCUMENTED = [
    '/usr/share/hunspell', '/usr/share/myspell', '/usr/share/myspell/dicts', '/Library/Spelling',
    '/opt/openoffice.org/basis3.0/share/dict/ooo', '/usr/lib/openoffice.org/basis3.0/share/dict/ooo',
    '/opt/openoffice.org2.4/share/dict/ooo', '/usr/lib/openoffice.org2.4/share/dict/ooo',
    '/opt/openoffice.org2.3/share/dict/ooo', '/usr/lib/openoffice.org2.3/share/dict/ooo',
    '/opt/openoffice.org2.2/share/dict/ooo', '/usr/lib/openoffice.org2.2/share/dict/ooo',
    '/opt/openoffice.org2.1/share/dict/ooo', '/usr/lib/openoffice.org2.1/share/dict/ooo',
    '/opt/openoffice.org2.0/share/dict/ooo', '/usr/lib/openoffice.org2.0/share/dict/ooo',
]


def below(root):
    """The class searching the same folders below the scratch root."""
    from spylls.hunspell import Dictionary

    class Below(Dictionary):
        PATHES = [root + folder for folder in Dictionary.PATHES]
    return Below


def system(tier):
    """one or two (three) of the documented folders have the dictionary"""
    for chosen in subsets(DOCUMENTED, 0, 2 if tier == 'quick' else 3):
        yield chosen, 'en_US'
    for chosen in subsets(DOCUMENTED[:5], 0, 5):
        for name in ('xx', 'en_US', 'ru', 'de-x', 'a.b', 'x y', 'd.aff'):
            yield chosen, name


def run_system(ctx, config):
    chosen, name = config
    with tree(ctx, enter=True) as root:
        cls = below(root)
        for folder in DOCUMENTED[::2]:
            os.makedirs(root + folder, exist_ok=True)
        for folder in DOCUMENTED:
            write(root + folder + '/' + name + 'x', 'qxzwt')      # another name everywhere
            write(root + folder + '/x' + name, 'qxzwt')
            if folder in chosen:
                write(root + folder + '/' + name, ALL_MARKS[DOCUMENTED.index(folder)])
        write(os.path.join(root, name), 'qxzwt')                            # the current folder isn't searched
        if chosen:
            d = ctx.call('from_system', cls.from_system, name)
            expect(ctx, d, ALL_MARKS[min(DOCUMENTED.index(f) for f in chosen)])
            if not isinstance(d, cls):
                ctx.fail('an object of another class', cls.__name__, type(d).__name__)
        else:
            fails(ctx, 'from_system', cls.from_system, name, errors=LookupError, mention=name)


def order(tier):
    """two names over four folders, every placement and order of the folders"""
    for folders in itertools.permutations('pqrs', 3):
        for one in subsets(folders):
            for two in subsets(folders):
                yield folders, one, two


def run_order(ctx, config):
    from spylls.hunspell import Dictionary
    folders, one, two = config
    with tree(ctx) as root:
        class Here(Dictionary):
            PATHES = [os.path.join(root, f) for f in folders]
        for name, placed, offset in (('one', one, 0), ('two', two, 4)):
            for f in placed:
                write(os.path.join(root, f, name), ALL_MARKS['pqrs'.index(f) + offset])
        for name, placed, offset in (('one', one, 0), ('two', two, 4)):
            first = [f for f in folders if f in placed]
            if first:
                expect(ctx, ctx.call('from_system', Here.from_system, name), ALL_MARKS['pqrs'.index(first[0]) + offset])
            else:
                fails(ctx, 'from_system', Here.from_system, name, errors=LookupError, mention=name)


# -- from zip

EXTRA = ['README.txt', 'hyph_d.dic', 'sub/hyph.dic', 'd.txt', 'META-INF/manifest.xml', 'dic', 'dictionaries/']


def zips(tier):
    """the pair and extra members in every order"""
    for folder in ('', 'dictionaries/', 'a/b/', 'x.aff/', 'x.dic/'):
        for stem in ('d', 'en.US', 'd.aff', 'é'):
            for extra in subsets(EXTRA, 0, 2):
                members = [folder + stem + '.aff', folder + stem + '.dic'] + list(extra)
                for members in itertools.permutations(members):
                    yield members, (folder + stem,), 'utf-8'
    for encoding in ('latin-1', 'koi8-r', 'utf-8', 'cp1251'):
        for members in itertools.permutations(['d.aff', 'd.dic', 'README.txt']):
            yield members, ('d',), encoding
    for pair in itertools.permutations(['d', 'e', 'f/d', 'd.x'], 2):
        members = [p + ext for p in pair for ext in ('.aff', '.dic')]
        for members in itertools.permutations(members):
            yield members, pair, 'utf-8'


LETTER = {'latin-1': 'é', 'koi8-r': 'щ', 'utf-8': 'ш', 'cp1251': 'ъ'}


def run_zips(ctx, config):
    from spylls.hunspell import Dictionary
    members, pairs, encoding = config
    with tree(ctx) as root:
        for compression in (zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED):
            path = os.path.join(root, 'archive.%d.%s' % (compression, ('zip', 'xpi', 'oxt')[len(members) % 3]))
            with zipfile.ZipFile(path, 'w', compression) as z:
                for name in members:
                    base, ext = os.path.splitext(name)
                    if base in pairs and ext in ('.aff', '.dic'):
                        no = pairs.index(base)
                        text = ('SET %s\nTRY a\nREP 1\nREP zz %s\n' % (encoding.replace('latin-1', 'ISO8859-1'), ALL_MARKS[no + 5]),
                                '2\n%s\n%s\n' % (ALL_MARKS[no], LETTER[encoding]))[ext == '.dic']
                        z.writestr(name, text.encode(encoding))
                    elif ext == '.dic':
                        z.writestr(name, 'UTF-8\nqxzwt\n1a1\n')
                    else:
                        z.writestr(name, b'' if name.endswith('/') else b'qxzwt\n')
            d = ctx.call('from_zip', Dictionary.from_zip, path)
            got = marks(ctx, d)
            if got not in [[ALL_MARKS[i]] for i in range(len(pairs))]:
                ctx.fail('another file of the archive is loaded', ALL_MARKS[:len(pairs)], got)
            if not ctx.lookup(d, LETTER[encoding]):
                ctx.fail('the encoding of the archived files is not used', encoding, LETTER[encoding])
            if d.aff.REP[0].replacement != ALL_MARKS[ALL_MARKS.index(got[0]) + 5]:
                ctx.fail('the two files are of different dictionaries', got, d.aff.REP[0].replacement)


def zip_names(tier):
    """the two files have different names"""
    for names in (('d.aff', 'e.dic'), ('x/d.aff', 'x/e.dic'), ('x/d.aff', 'y/d.dic'), ('d.aff', 'x/d.dic'), ('en_US.aff', 'en.dic')):
        for extra in subsets(['README.txt', 'aff', 'dic', 'd.txt', 'dictionaries/', 'x.aff.txt', 'd.dic.bak'], 0, 2):
            for members in itertools.permutations((*names, *extra)):
                yield members


def run_zip_names(ctx, members):
    from spylls.hunspell import Dictionary
    with tree(ctx) as root:
        path = os.path.join(root, 'd.zip')
        with zipfile.ZipFile(path, 'w') as z:
            for name in members:
                z.writestr(name, {'.aff': 'TRY a\n', '.dic': '1\nqxzwa\n'}.get(os.path.splitext(name)[1], b'' if name.endswith('/') else 'qxzwt\n'))
        expect(ctx, ctx.call('from_zip', Dictionary.from_zip, path), 'qxzwa')


SPACES = [
    Space('paths', '10 folders x 19 names with dots, spaces, glob signs and extension-like parts x 4 ways to write the path, '
          'with similarly named files around', paths, run_paths),
    Space('local', 'bundled names with every subset of them present in the current folder', local, run_local),
    Space('system', 'the dictionary in none, one or two (thorough: three) of the 16 documented folders; 7 names in every '
          'subset of the first five', system, run_system),
    Space('order', 'two names, every placement over three folders in every order', order, run_order),
    Space('zip', 'the pair in 5 folders with up to two further files in every order; encodings; two dictionaries', zips,
          run_zips),
    Space('zip names', 'the only two files of an archive have different names; up to two further files, every order', zip_names, run_zip_names),
]

ASSUMPTIONS = ['system folders are searched below a scratch root, by a subclass with prefixed PATHES',
               'a system folder has either both files of a dictionary or none']
