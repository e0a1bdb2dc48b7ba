"""The checks."""
from props_codec import C01, C02, C03, C04, C05
from props_check import C06
from props_transform import C07
from props_form import C08, C09, C10, C14, C15, C19
from props_deps import C11, C12
from props_json import C13
from props_docs import C17, C18
from props_dict import C20
from props_format import C16

CHECKS = {k: v for k, v in sorted(globals().items()) if len(k) == 3 and k[0] == 'C'}
