package simk

// journal records what the last step changed in the tree, so that the run can
// be interleaved with another one.
func (k *Kernel) journal() {
	if !k.plan.Journal || treeGen == k.baseGen {
		return
	}
	old := k.base
	k.rebase()
	for _, a := range TreeDiff(old, k.base) {
		k.res.Journal = append(k.res.Journal, Change{k.steps, a})
	}
}

func (k *Kernel) rebase() {
	if k.plan.Journal {
		k.base, k.baseGen = k.fs.Dump(), treeGen
	}
}

// TreeDiff lists the actions that turn a tree (parents before children) into
// another one.
func TreeDiff(old, now []Node) (r []Act) {
	index := map[string]*Node{}
	for i := range now {
		index[now[i].Path] = &now[i]
	}
	before := map[string]*Node{}
	for i := len(old) - 1; i >= 0; i-- {
		o := &old[i]
		n := index[o.Path]
		if n == nil || n.Mode&ifmt != o.Mode&ifmt || n.Target != o.Target {
			r = append(r, Act{Kind: ARemove, P: o.Path})
		} else {
			before[o.Path] = o
		}
	}
	for i := range now {
		n := &now[i]
		o := before[n.Path]
		switch n.Mode & ifmt {
		case IFDIR:
			if o == nil {
				r = append(r, Act{Kind: AMkdir, P: n.Path, M: n.Mode & 07777})
			}
		case IFLNK:
			if o == nil {
				r = append(r, Act{Kind: ALink, P: n.Path, P2: n.Target})
			}
			continue
		default:
			if o == nil || string(o.Data) != string(n.Data) {
				r = append(r, Act{Kind: AWrite, P: n.Path, D: n.Data, M: n.Mode & 07777})
			}
		}
		if o != nil && o.Mode != n.Mode {
			r = append(r, Act{Kind: AChmod, P: n.Path, M: n.Mode & 07777})
		}
	}
	return
}
