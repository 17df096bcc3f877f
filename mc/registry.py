"""Which module holds the check of which property."""
MODULES = {
    'C01': 'storage', 'C02': 'storage', 'C03': 'storage', 'C04': 'storage',
    'C08': 'storage', 'C05': 'container', 'C06': 'container',
    'C07': 'container', 'C09': 'connection', 'C10': 'connection',
    'C11': 'connection', 'C12': 'connection',
    'C13': 'lifecycle', 'C14': 'lifecycle', 'C15': 'lifecycle',
    'C16': 'lifecycle', 'C17': 'modules', 'C18': 'modules',
    'C29': 'lifecycle',
    'C19': 'values', 'C20': 'values', 'C21': 'documents', 'C22': 'documents',
    'C23': 'packages', 'C24': 'packages', 'C25': 'documents', 'C26': 'documents',
    'C27': 'codecs', 'C28': 'codecs', 'C30': 'legacy',
    'C31': 'history',
}
