from trans import *
from trans import TranslatorCore
from expr import ExprMixin
from stdlib import StdMixin
from render import RenderMixin

class Translator(TranslatorCore, ExprMixin, StdMixin, RenderMixin):
    pass
