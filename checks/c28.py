"""C28  results saved to a file are complete, and saving never loses results stored before."""
from engine.harness import harness
from engine.files import check_save

P = 'C28'

for tag, o in dict(
        name=dict(path='run', target='run.cdict'),
        suffix=dict(path='run.cdict', target='run.cdict', others=('other.cdict', 'run2.cdict')),
        path_object=dict(path='run.cdict', target='run.cdict', as_path=True),
        method=dict(path='run', target='run.cdict', method=True),
        method_path_object=dict(path='sub/run', target='sub/run.cdict', method=True, as_path=True, others=('run.cdict', 'sub/other.cdict')),
        new_folder=dict(path='a/b/run', target='a/b/run.cdict'),
        relative=dict(path='run', target='run.cdict', relative=True)).items():
    harness(P, f'save_{tag}', runner=check_save, **o,
            about='whatever operation fails and wherever the process stops, the file holds all of the old or all of the new results; nothing else changes')(None)
