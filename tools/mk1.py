HEAD='MUsers == {%s}\nMAssets == {%s}\nMRew == {%s}\n'
def mod(name, users, assets, rew, body, ext='Props, Base'):
    q=lambda l: ', '.join('"%s"'%x for x in l.split())
    t='-'*30+' MODULE '+name+' '+'-'*30+'\nEXTENDS '+ext+'\n'+HEAD%(q(users),q(assets),q(rew))+body.strip('\n')+'\n'+'='*77+'\n'
    open('/verif/spec/%s.tla'%name,'w').write(t)
