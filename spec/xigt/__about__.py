
# This __about__.py file for storing project metadata is inspired by
# the warehouse project:
#   https://github.com/pypa/warehouse/blob/master/warehouse/__about__.py

__version__ = '1.1.1'
__version_info__ = __version__.replace('.', ' ').replace('-', ' ').split()

__title__ = 'Xigt'
__summary__ = 'A framework for eXtensible Interlinear Glossed Text'
__uri__ = 'https://github.com/xigt/xigt'

__author__ = 'Michael Wayne Goodman'
__email__ = 'goodman.m.w@gmail.com'

__license__ = 'MIT'
__copyright__ = '2015 %s <%s> and contributors' % (__author__, __email__)
