ID = 'c36-media-kind-longer-name'
PROPERTY = 'C36'
NEEDS = 'changing the data kind of a component from one whose name starts with the name of the new kind (PictureWithMatte to Picture)'
BREAKS = 'the assignment is taken for a no-op and the component keeps its old data kind'
EDITS = [('components.py', """        self['DataDefinition'].value = value

    @property
    def media_kind(self):
""", """        current = self.datadef
        # the same kind, perhaps from another dictionary: keep what is there
        if not (current and value and (current.name or '').startswith(value.name or '?')):
            self['DataDefinition'].value = value

    @property
    def media_kind(self):
""")]
DEMO = '''
import sys
import aaf2
ok = True
with aaf2.open() as f:
    c = f.create.Filler('PictureWithMatte', 5)
    for k in ('picture', 'sound', 'PictureWithMatte', 'DataDef_Picture'):
        c.media_kind = k
        print(k, c.media_kind)
        ok = ok and c.media_kind.lower() == k.lower().replace('datadef_', '')
sys.exit(0 if ok else 1)
'''
