id='py-zoro-alias'; prop='P23'
needs='a zoRO description with output_riccati_t (an output of the custom update that is off by default)'
breaks='the field is renamed on the Python side with an alias for the old name; an alias is not dumped, so the template that asks for zoro_description.output_riccati_t finds nothing'
edits=[('interfaces/acados_template/acados_template/zoro_description.py',"""    output_riccati_t: bool = False
""","""    output_riccati_time: bool = False
"""),('interfaces/acados_template/acados_template/zoro_description.py',"""    def make_consistent(self, dims: AcadosOcpDims""","""    @property
    def output_riccati_t(self):
        return self.output_riccati_time

    @output_riccati_t.setter
    def output_riccati_t(self, value):
        self.output_riccati_time = value

    def make_consistent(self, dims: AcadosOcpDims""")]
files={'d.py':r'''import re, glob, os, dataclasses
import acados_template
from acados_template import ZoroDescription
keys = set(vars(ZoroDescription()))
d = os.path.dirname(acados_template.__file__)
bad = set()
for f in glob.glob(d + '/custom_update_templates/*') + glob.glob(d + '/c_templates_tera/**/*.in.*', recursive=True):
    bad |= set(re.findall(r'\bzoro_description\.([A-Za-z_]\w*)', open(f).read())) - keys
print('fields the templates use and the description does not provide:', sorted(bad))
raise SystemExit(1 if bad else 0)
'''}
demo='''HERE="$(cd "$(dirname "$0")" && pwd)"
PYTHONPATH="$PWD/interfaces/acados_template" /opt/acados-env/venv/bin/python -B "$HERE/d.py"
'''
