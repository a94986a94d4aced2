"""D03: compounds and borrowings without an entry of their own are glossed from their parts."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from translation import *

# word -> its parts (a borrowing: the parts of its classifier, and the rest of the word)
PARTS = {'klamygau': ['klama', 'gasnu'], 'gasnygau': ['gasnu', 'gasnu'], 'selbroda': ['se', 'broda'], 'terselbroda': ['te', 'se', 'broda'], 'klamyselgau': ['klama', 'se', 'gasnu'],
         "to'erbroda": ["to'e", 'broda'], 'zmarai': ['zmadu', 'traji'], 'velgasnyrai': ['ve', 'gasnu', 'traji'], 'xelterklamyselvelgau': ['xe', 'te', 'klama', 'se', 've', 'gasnu'],
         'cidjrspageti': (['cidja'], 'spageti'), 'tricrxaceru': (['tricu'], 'xaceru'), 'selcidjrspageti': (['se', 'cidja'], 'spageti'), 'ralcidjrspageti': (['ralju', 'cidja'], 'spageti'),
         'cidj,r,spageti': (['cidja'], 'spageti'), 'dalrxokto': (['danlu'], 'xokto')}
ZEI = ['brodo+gasnu', 'brodo+te+gasnu', 'se+brodo+gasnu', 'se+te+brodo', 'te+se+brodo', 've+broda', 'xe+ve+te+se+broda', 'brodo+se', 'brodo+brodu+gasnu', 'brodo+brodu+gasnu+traji', 'brodo+se+brodu+te+se+gasnu']


def run(c):
    tree = Tree(['dfa', 'morf', 'misc', 'grammar'])
    X = Translator(tree)
    thorough = c.tier == 'thorough'
    jobs = []
    for w in ZEI + list(PARTS):
        n = len(w.split('+') if '+' in w else PARTS[w] if isinstance(PARTS[w], list) else PARTS[w][0] + [0])
        for place in (range(0, 8) if thorough else (0, 1, 2, 3, 6) if n < 3 else (1, 2)):
            for ctx in range(4) if n < 3 or thorough else ((place + n) % 4, (place + n + 2) % 4):
                deep = n < 3 and (thorough or place in (1, 2) and ctx % 2)
                jobs.append((w, place, ctx, 2, 64 if deep else 30, 1 if deep else 0))      # patterns first
                if thorough or n > 2 or place == 2:
                    jobs.append((w, place, ctx, 3, 20 if n < 3 or thorough else 12, 0))
                jobs.append((w, place, ctx, 4, -8, 1))                                     # no pattern, only the parts
    t, n = survey(c, X, jobs, PARTS, 'R1')
    c.need('compound paths', n, 50000)
    c.count(words=len(ZEI) + len(PARTS), requests=t, abstract_paths=n)
    c.rule('R1: for every compound and borrowing, place and use, and every dictionary of the family: own entry, patterns at the end and beginning by precedence (with their %-forms, redirections and extensions), else the glosses of the parts joined by hyphens, with the conversions inside the compound applied to the places; no path ends abnormally')


if __name__ == '__main__':
    main('D03', run)
