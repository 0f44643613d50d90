
from xigt.__about__ import __version__

from xigt.model import (
    XigtCorpus,
    Igt,
    Tier,
    Item
)

from xigt.metadata import (
    Metadata,
    Meta,
    MetaChild
)

from xigt.ref import (
    resolve
)
