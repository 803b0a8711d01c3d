exec(open('/verif/tools/plants/_files_base.py').read())
ID = 'c43-later-line-forgets-successors'
PROP = 'C43'
EDITS = [(SK, '''                if task_id not in task_dict:
                    task_dict[task_id] = {"id": task_id, "successors": [], "skills": {}}
                task_dict[task_id]["duration"] = int(words[1])
''', '''                task_dict[task_id] = {"id": task_id, "successors": [], "skills": {}, "duration": int(words[1])}
''')]
NEEDS = 'a file in which the line of a task comes after the line of one of its successors'
BREAKS = 'the precedence between them is lost'
DEMO = FILES + '''
m, names = project(['1 5 Q0: 0 2', '2 3 Q0: 0'])
expect('successors', sorted(m.successors[3]), [2, 4])
'''
