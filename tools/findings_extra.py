# PROP.update({...}) for later repairs, OPEN += ['finding: property=ID replay=FILE what'] for open findings
PROP.update({'line up amounts': 'C07'})
PROP.update({'blanks after the path': 'C10'})
PROP.update({'resolve accounts and check': 'C20', 'file of a test clause': 'C22', 'around an include': 'C22', 'filling in test results': 'C22', 'without an end': 'C22', 'different commodities are not equal': 'C23'})
PROP.update({'account and commodity definitions in full': 'C24', 'symbol and default mark': 'C24', 'price lines in full': 'C24', 'closed directives': 'C24'})
PROP.update({
 'import without a rules file': 'C16',
 'lines to skip of a csv source': 'C16',
 'csv templates with a dollar sign': 'C21',
 'optional columns at the end of a csv field list': 'C16',
 'keep the notes of the rule when a csv row': 'C16',
 'csv headers can have another number': 'C16',
 'by their csv_acctid': 'C16',
 'dump csv sources': 'C25',
 'dump drop rules': 'C25',
 'dump the rules of several ids': 'C20',
 'read rule lines in full': 'C25',
 'csv values derived from themselves': 'C21',
 'ofx statements without a list': 'C15',
 'duplicates of ofx records by their day': 'C15',
 'last line of a bmo file': 'C27',
 'a payee that reads as a code': 'C15',
})
PROP.update({
 'gnucash records by the day': 'C17',
 'gnucash books without prices': 'C17',
 'gnucash accounts with an online id': 'C17',
 'gnucash prices of unknown': 'C21',
 'malformed gnucash numbers': 'C21',
 'gnucash books not using': 'C17',
})
PROP.update({
 'include the running balances in generated': 'C18',
 'dates of a week or month starting on the last': 'C18',
 'weekly and monthly dates in order and once': 'C18',
})
PROP.update({
 'aggregate all accounts into others': 'C21',
})
PROP.update({
 'refuse rule sets that refer to themselves': 'C21',
})
PROP.update({
 'refuse gnucash accounts that are their own': 'C21',
})
PROP.update({
 'view a ledger without transactions': 'C26',
 'read viewer amounts with any number': 'C26',
 'show accounts called Root below': 'C26',
 'keep to one time zone in the viewer': 'C26',
 'export transactions in the order': 'C26',
 'aggregate all postings of the selected': 'C26',
 'start from the balance before the selected': 'C26',
 'allow the whole first year': 'C26',
 'show the cumulative total in the aggregated': 'C26',
 'show transactions without an opposite': 'C26',
})
PROP.update({
 'an inverted tag pattern selects': 'C13',
})
PROP.update({'repeated import rule sets': 'C25', 'repeated csv sources': 'C25'})
PROP.update({'through a symbolic link': 'C08'})
PROP.update({'refuse to run tests within a test': 'C21'})
