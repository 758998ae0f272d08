
INI = 'python/getdist/inifile.py'
HEAD = '''
import os, sys, tempfile, shutil, io, contextlib
from getdist.inifile import IniFile, IniError
d = tempfile.mkdtemp()
import atexit
atexit.register(shutil.rmtree, d)
def write(name, text):
    p = os.path.join(d, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'w') as f:
        f.write(text)
    return p
'''
seed('default-in-default', 'C11', 'a default file that itself includes another file in which a key of the main file is set again',
     'files included by a default file are no longer treated as defaults, so a key set in the main file too is an error',
     [(INI, "                        self.readFile(ffile, if_not_defined=if_not_defined)\n                    else:\n                        self.readFile(os.path.join(os.path.dirname(filename), ffile), if_not_defined=if_not_defined)",
            "                        self.readFile(ffile, if_not_defined=if_not_defined)\n                    else:\n                        self.readFile(os.path.join(os.path.dirname(filename), ffile))")],
     HEAD + '''
m = write('m.ini', 'a = 1\\nDEFAULT(x/d.ini)\\n')
write('x/d.ini', 'INCLUDE(e.ini)\\nb = 2\\n')
write('x/e.ini', 'a = 5\\nc = 3\\n')
p = IniFile(m).params
assert p == {'a': '1', 'b': '2', 'c': '3'}, p
''')
seed('default-order', 'C11', 'two default files setting the same key to different values',
     'the last default file wins instead of the first',
     [(INI, "                for ffile in filedefaults:\n", "                for ffile in reversed(filedefaults):\n")],
     HEAD + '''
m = write('m.ini', 'a = 1\\nDEFAULT(d1.ini)\\nDEFAULT(d2.ini)\\n')
write('d1.ini', 'b = 1\\n')
write('d2.ini', 'b = 2\\nc = 3\\n')
p = IniFile(m).params
assert p == {'a': '1', 'b': '1', 'c': '3'}, p
''')
seed('save-drops-readded', 'C12', 'a setting read from file, deleted and then set again in memory before saving',
     'settings that were deleted after reading and later set again are not written when saving',
     [(INI, "        for k in keys:\n            self.params.pop(k, None)",
            "        for k in keys:\n            self.params.pop(k, None)\n            self.readOrder.append(k)"),
      (INI, "        for key in self.readOrder:\n            if key in keys:\n", "        for key in self.readOrder:\n            if self.readOrder.count(key) > 1 and key in keys:\n                keys.remove(key)\n            if key in keys:\n")],
     HEAD + '''
ini = IniFile(write('m.ini', 'a = 1\\nb = 2\\n'))
ini.delete_keys(['a'])
ini.params['a'] = '3'
ini.saveFile(os.path.join(d, 'n.ini'))
p = IniFile(os.path.join(d, 'n.ini')).params
assert p == {'a': '3', 'b': '2'}, p
''')
seed('settings-alias', 'C12', 'a settings object made from a dictionary and then changed, the dictionary used again',
     'changing a settings object made from a dictionary also changes the dictionary',
     [(INI, "        elif settings:\n            self.params.update(settings)", "        elif settings:\n            self.params = settings if type(settings) == dict else dict(settings)")],
     HEAD + '''
s = {'a': 1}
x, y = IniFile(s), IniFile(s)
x.params['a'] = 2
assert y.int('a') == 1 and s == {'a': 1}, s
''')
