
# attributes
ID = 'id'
TYPE = 'type'
ALIGNMENT = 'alignment'
CONTENT = 'content'
SEGMENTATION = 'segmentation'

# XigtCorpus loading modes
FULL = 'full'
INCREMENTAL = 'incremental'
TRANSIENT = 'transient'
