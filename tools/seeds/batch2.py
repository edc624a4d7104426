L = '/verif/tools/seeds/demolib.py'
H = 'from demolib import *\n'
SEEDS = [
 dict(id='s07-reorder-second-key', property='C11', lib=L,
  needs='a randomised delta whose depth is that of the children of a list '
        'entry with more than one key',
  breaks='the second key no longer stays in front',
  edits=[('config.py', '''            if schema_node.get('is_key') == "true":
                num_keys += 1
            else:''', '''            if schema_node.get('is_key') == "true":
                num_keys = 1
            else:''')],
  demo=H + '''
a = cfg('')
b = cfg('<mk><k1>1</k1><k2>2</k2><v>3</v></mk>')
for seed in range(30):
    d = ConfigDelta(config_src=a, config_dst=b, random_depth=2,
                    random_seed=seed)
    e = d.nc[0][0]
    check([x.tag[-2:] for x in e][:2] == ['k1', 'k2'], str(d))
'''),
]
